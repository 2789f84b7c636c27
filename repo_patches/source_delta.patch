From 8c3fb72686b903f56c72821fef2eb10be9e227cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 01/49] fix: serve the CRL of the certificate database

The `/crl` route built its CRL from `cert_state_db`, which nothing fills, so a
certificate revoked by an `rr` never appeared on the published CRL.
---
 mock_ca/ca_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 925e6e2..d05054b 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -1392,9 +1392,9 @@ class CAHandler:
 
     def get_current_crl(self) -> bytes:
         """Process the CRL request and return the response."""
-        response = self.state.cert_state_db.get_crl_response(
+        response = self.state.certificate_db.get_current_crl(
             ca_cert=self.ca_cert,
-            sign_key=self.ca_key,
+            ca_key=self.ca_key,
             hash_alg="sha256",
         )
         return response.public_bytes(encoding=Encoding.DER)
-- 
2.43.0


From 1c8f6cb6e48141a08df46adb86cd3dd3c732c3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 02/49] fix: answer OCSP requests for updated certificates

An updated certificate has the OCSP status revoked, but was only looked up in
the list of revoked certificates, so the request ended in NotImplementedError.
---
 mock_ca/mock_fun.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 2881089..55b9a7c 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -307,6 +307,8 @@ class CertRevStateDB:
         if num in nums:
             status = "revoked"
             found_cert = self.rev_entry_list.get_cert_by_serial_number(num)
+            if found_cert is None:
+                found_cert = self.update_entry_list.get_cert_by_serial_number(num)
         else:
             for cert in issued_certs:
                 if num == int(cert["tbsCertificate"]["serialNumber"]):
-- 
2.43.0


From 0bae2f60abec42c0069e58ccdb9823adb90840b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:58 +0000
Subject: [PATCH 03/49] fix: increase the CRL number with every CRL of the
 certificate database

RFC 5280 Section 5.2.3: the CRL number is a monotonically increasing sequence
number, but every CRL of the certificate database carried the number 1.
---
 mock_ca/mock_fun.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 55b9a7c..3f3f033 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1282,6 +1282,7 @@ class CertificateDB:
             updated_certs=self.updated_certs,
             crl_number=self._crl_number,
         )
+        self._crl_number += 1
         return rev_db.get_crl_response(
             sign_key=ca_key,
             ca_cert=ca_cert,
-- 
2.43.0


From 88eb253fa8fc5ccaa3a706eb0e4f26f4a37469ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:37 +0000
Subject: [PATCH 04/49] fix: do not confirm a certificate the client rejected

A `certConf` with the status `rejection` moved the certificate to CONFIRMED (and
for a `kup` the old one to UPDATED), so a rejected certificate was listed as
issued and could authenticate requests.  It now stays NOT_CONFIRMED, and a
certificate in that state cannot protect a request.
---
 mock_ca/ca_handler.py        | 3 ++-
 mock_ca/cert_conf_handler.py | 6 ++++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index d05054b..89ceebc 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -28,7 +28,7 @@ from mock_ca.challenge_handler import ChallengeHandler
 from mock_ca.db_config_vars import CertConfConfigVars, VerifyState
 from mock_ca.general_msg_handler import GeneralMessageHandler
 from mock_ca.hybrid_handler import HybridIssuingHandler, SunHybridHandler
-from mock_ca.mock_fun import BaseURLData, KeySecurityChecker, MockCAState
+from mock_ca.mock_fun import BaseURLData, CertStateEnum, KeySecurityChecker, MockCAState
 from mock_ca.nested_handler import NestedHandler
 from mock_ca.operation_dbs import MockCAOPCertsAndKeys, StatefulSigState
 from mock_ca.prot_handler import ProtectionHandler
@@ -680,6 +680,7 @@ class CAHandler:
 
         for i, cert in enumerate(pki_message["extraCerts"]):
             result = self.cert_conf_handler.is_not_confirmed(cert=cert)
+            result = result or self.state.certificate_db.get_cert_state(cert) == CertStateEnum.NOT_CONFIRMED
             if result:
                 raise NotAuthorized(
                     "The certificate is not authorized to be used to "
diff --git a/mock_ca/cert_conf_handler.py b/mock_ca/cert_conf_handler.py
index c75bc13..b7c35d2 100644
--- a/mock_ca/cert_conf_handler.py
+++ b/mock_ca/cert_conf_handler.py
@@ -367,6 +367,12 @@ class CertConfHandler:
 
         ccp_cert = None
 
+        status_info = pki_message["body"]["certConf"][0]["statusInfo"]
+        if status_info.isValue and str(status_info["status"]) == "rejection":
+            # The client did not accept the certificate, so it must never become a confirmed one.
+            self.conf_state.remove_request(pki_message)
+            return response, None
+
         if response_type == "kup":
             cert = requests["extraCerts"][0]
             self.state_db.certificate_db.change_cert_state(
-- 
2.43.0


From 61c5d2cdc6575d8f2c5b6b270b1f6077ef1b9355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:14:37 +0000
Subject: [PATCH 05/49] fix: verify the proof of possession of every
 certificate request

With several entries in one message the POPO signature of the first entry was
verified for each of them, so the signatures of the other entries were ignored.
---
 resources/ca_ra_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index d821e86..7b90387 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1309,7 +1309,7 @@ def verify_popo_for_cert_request(  # noqa: D417 Missing argument descriptions in
         )
 
     elif name == "signature":
-        verify_sig_pop_for_pki_request(pki_message)
+        verify_sig_pop_for_pki_request(pki_message, cert_index=cert_req_index)
     elif name == "keyEncipherment":
         public_key = get_public_key_from_cert_req_msg(cert_req_msg=cert_req_msg)
 
@@ -2382,7 +2382,7 @@ def _process_one_cert_request(
                 ) from e
 
     elif not cert_req_msg["popo"].isValue:
-        if not check_if_request_is_for_kga(request):
+        if not check_if_request_is_for_kga(request, index=cert_index):
             raise BadCertTemplate(
                 "The `popo` structure is missing in the PKIMessage."
                 "But the request is not for KGA (key generation authority)."
-- 
2.43.0


From cd9d92abf4fb3c1fe1fd7e3499fb41565bd09589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:33 +0000
Subject: [PATCH 06/49] fix: refuse a key that was revoked as compromised

The compromised key check looked at a list nothing ever fills, so a key of a
certificate revoked with keyCompromise was accepted again under another subject.
It also stopped at the first request without a key and did not cover ccr.
---
 mock_ca/ca_handler.py |  4 ++--
 mock_ca/mock_fun.py   | 20 +++++++++++++++++---
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 89ceebc..c1ccace 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -718,7 +718,7 @@ class CAHandler:
             if pki_message["body"].getName() not in ["rr", "genm"]:
                 self.verify_protection(pki_message)
 
-            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "crr", "kur", "rr"]:
+            if pki_message["body"].getName() in ["ir", "cr", "p10cr", "ccr", "kur", "rr"]:
                 self._check_for_compromised_key(pki_message)
 
             if pki_message["body"].getName() not in ["certConf", "error"]:
@@ -887,7 +887,7 @@ class CAHandler:
         :raises BadCertTemplate: If the certificate template is invalid.
         """
         try:
-            result = self.state.cert_state_db.check_request_for_compromised_key(pki_message)
+            result = self.state.check_request_for_compromised_key(pki_message)
             if result:
                 raise BadCertTemplate("The certificate template contained a compromised key.")
         except (InvalidKeyData, BadAsn1Data, BadAlg) as e:
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 3f3f033..3c809fd 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -424,11 +424,11 @@ class CertRevStateDB:
 
         body_name = request["body"].getName()
 
-        if body_name in ["ir", "cr", "crr", "kur"]:
+        if body_name in ["ir", "cr", "ccr", "kur"]:
             for entry in request["body"][body_name]:
                 public_key = ca_ra_utils.get_public_key_from_cert_req_msg(entry, must_be_present=False)
                 if public_key is None:
-                    return False
+                    continue
 
                 if self.rev_entry_list.contains_key(public_key):
                     return True
@@ -1040,6 +1040,17 @@ class CertificateDB:
         """Return the revoked certificates."""
         return self._get_certs_by_state(cert_state=CertStateEnum.REVOKED)
 
+    @property
+    def compromised_certs(self) -> List[rfc9480.CMPCertificate]:
+        """Return the certificates, which are revoked because of a compromised key."""
+        return [
+            entry.cert
+            for entry in self._certs
+            if entry.cert_state == CertStateEnum.REVOKED
+            and entry.revoked_entry is not None
+            and entry.revoked_entry.reason in ["keyCompromise", "cACompromise", "aACompromise"]
+        ]
+
     @property
     def updated_certs(self) -> List[rfc9480.CMPCertificate]:
         """Return the updated certificates."""
@@ -1467,7 +1478,10 @@ class MockCAState:
 
     def check_request_for_compromised_key(self, request_msg: PKIMessageTMP) -> bool:
         """Check the request for a compromised key."""
-        return self.cert_state_db.check_request_for_compromised_key(request_msg)
+        if self.cert_state_db.check_request_for_compromised_key(request_msg):
+            return True
+        compromised = CertRevStateDB.build(revoked_certs=self.certificate_db.compromised_certs)
+        return compromised.check_request_for_compromised_key(request_msg)
 
     def add_may_update_cert(
         self, old_cert: rfc9480.CMPCertificate, update_cert: rfc9480.CMPCertificate, was_confirmed: bool
-- 
2.43.0


From c59dcbf76020610fc73b5bec14af7212f8ca492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:24 +0000
Subject: [PATCH 07/49] fix: answer a certConf with an unexpected status

PKIStatus has no getName(), so the intended badRequest became a systemFailure.
---
 resources/ca_ra_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 7b90387..4c55cf1 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -3127,7 +3127,7 @@ def _validate_cert_status(
     if str(status["status"]) not in {"accepted", "rejection"}:
         raise BadRequest(
             "Invalid certificate status in CertConf message."
-            f"Expected 'accepted' or 'rejection', got {status['status'].getName()}"
+            f"Expected 'accepted' or 'rejection', got {str(status['status'])}"
         )
 
     if str(status["status"]) == "accepted" and status["failInfo"].isValue:
-- 
2.43.0


From fdd3f155fe2f9214dc482ac2976e4b04c1f5f555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:58:18 +0000
Subject: [PATCH 08/49] fix: keep the key of a certificate in use while its
 update is unconfirmed

The key of a certificate with an unconfirmed update was certified again for the
same subject.
---
 mock_ca/mock_fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index 3c809fd..a78fc60 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -1372,7 +1372,7 @@ class MockCAState:
         key_sec_check = KeySecurityChecker(
             issued_certs=self.certificate_db.issued_certs,
             # revoked_certs=self.certificate_db.revoked_certs,
-            updated_certs=self.certificate_db.not_confirmed_certs,
+            updated_certs=self.certificate_db.updated_certs + self.certificate_db.not_confirmed_certs,
         )
 
         return key_sec_check.contains_pub_key(
-- 
2.43.0


From 0030545dd08882ae0fa0d513029e958cb396fbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:28 +0000
Subject: [PATCH 09/49] fix: answer a request without senderNonce or
 transactionID

---
 resources/ca_ra_utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 4c55cf1..5fb6288 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2226,7 +2226,8 @@ def set_ca_header_fields(request: PKIMessageTMP, kwargs: dict) -> dict:
     else:
         logging.debug("No `senderKID` value set in the request header.")
 
-    kwargs["recip_nonce"] = kwargs.get("recip_nonce") or request["header"]["senderNonce"].asOctets()
+    if request["header"]["senderNonce"].isValue:
+        kwargs["recip_nonce"] = kwargs.get("recip_nonce") or request["header"]["senderNonce"].asOctets()
     alt_nonce = (
         os.urandom(16) if not request["header"]["recipNonce"].isValue else request["header"]["recipNonce"].asOctets()
     )
@@ -2235,7 +2236,8 @@ def set_ca_header_fields(request: PKIMessageTMP, kwargs: dict) -> dict:
         alt_nonce = os.urandom(16)
 
     kwargs["sender_nonce"] = kwargs.get("sender_nonce") or alt_nonce
-    kwargs["transaction_id"] = kwargs.get("transaction_id") or request["header"]["transactionID"].asOctets()
+    if request["header"]["transactionID"].isValue:
+        kwargs["transaction_id"] = kwargs.get("transaction_id") or request["header"]["transactionID"].asOctets()
     kwargs["recipient"] = kwargs.get("recipient") or request["header"]["sender"]
     kwargs["pvno"] = kwargs.get("pvno") or int(request["header"]["pvno"])
     return kwargs
-- 
2.43.0


From 35963e2a76b2fd2ca23c8ed06b5a0d087cea6d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:41:48 +0000
Subject: [PATCH 10/49] fix: do not send the expected MAC to the client

---
 mock_ca/prot_handler.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mock_ca/prot_handler.py b/mock_ca/prot_handler.py
index 66057de..8d3959f 100644
--- a/mock_ca/prot_handler.py
+++ b/mock_ca/prot_handler.py
@@ -42,6 +42,7 @@ from resources.data_objects import KARICertsAndKeys
 from resources.exceptions import (
     BadAsn1Data,
     BadConfig,
+    BadMacProtection,
     BadMessageCheck,
     BadRequest,
     BadSigAlgID,
@@ -203,7 +204,7 @@ class ProtectionHandler:
                 shared_secret=ss,
             )
 
-        except ValueError as e:
+        except (ValueError, BadMessageCheck) as e:
             raise BadMessageCheck("The DH-based MAC protection is invalid.") from e
 
         self.check_signer_is_trusted(pki_message, for_dh=True)
@@ -530,6 +531,10 @@ class ProtectionHandler:
                 enforce_lwcmp=self.prot_handler_config.enforce_lwcmp,
             )
 
+        except BadMacProtection as e:
+            # The message of the exception contains the expected MAC, which must not be sent to the client.
+            raise BadMessageCheck(message="Invalid MAC protection.") from e
+
         except LwCMPViolation as e:
             raise BadMessageCheck(
                 message="The MAC protection is invalid (please check the error details).",
-- 
2.43.0


From c19f22ef44f7cf8dd18c9ea247cbf726c026bcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:57:55 +0000
Subject: [PATCH 11/49] fix: do not send expected POPO MACs, registration
 tokens and authenticators to the client

---
 resources/ca_ra_utils.py | 2 +-
 resources/cmputils.py    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 5fb6288..abf85e3 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1588,7 +1588,7 @@ def _process_agree_mac_key_agreement(
     found_mac = cert_req_msg["popo"]["keyAgreement"]["agreeMAC"]["value"].asOctets()
 
     if mac_value != found_mac:
-        raise BadPOP(f"The MAC value does not match the expected value. Expected: {mac_value}, Got: {found_mac}")
+        raise BadPOP("The MAC value of the `agreeMAC` proof-of-possession is invalid.")
 
     new_ee_cert = certbuildutils.build_cert_from_cert_template(
         cert_template=cert_template,
diff --git a/resources/cmputils.py b/resources/cmputils.py
index d245fe8..600ee0a 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -1108,7 +1108,7 @@ def validate_reg_token_control(  # noqa D417 undocumented-param
 
     if expected_token is not None:
         if reg_token_str != expected_token:
-            raise BadRequest(f"Expected regToken: {expected_token}, but got: {reg_token_str}.")
+            raise BadRequest(f"The `regToken` is not the expected one, got: {reg_token_str}.")
 
     return reg_token_str
 
@@ -1199,7 +1199,7 @@ def validate_authenticator_control(  # noqa D417 undocumented-param
 
     if expected_auth_info is not None:
         if auth_info_str != expected_auth_info:
-            raise BadRequest(f"Expected authenticator: {expected_auth_info}, but got: {auth_info_str}.")
+            raise BadRequest(f"The `authenticator` is not the expected one, got: {auth_info_str}.")
 
     return auth_info_str
 
-- 
2.43.0


From b35463b8710fd3c3ff2883a8511315d3a4d8ee0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:41:48 +0000
Subject: [PATCH 12/49] fix: do not certify a key twice for a subject within
 one message

---
 mock_ca/cert_req_handler.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 53da0d2..cdbb7f7 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -52,6 +52,7 @@ from resources.cmputils import (
     get_pkistatusinfo,
     patch_generalinfo,
 )
+from resources.compareutils import compare_pyasn1_names
 from resources.convertutils import ensure_is_verify_key
 from resources.copyasn1utils import copy_name
 from resources.data_objects import ExtraIssuingData
@@ -244,6 +245,7 @@ class CertReqHandler:
         else:
             body_name = pki_message["body"].getName()
 
+            requested_keys = []
             for entry in pki_message["body"][body_name]:
                 cert_template = entry["certReq"]["certTemplate"]
                 try:
@@ -256,8 +258,15 @@ class CertReqHandler:
                     )
                 public_key = load_public_key_from_cert_template(cert_template, must_be_present=False)
                 if public_key is not None:
-                    if self.state.contains_pub_key(public_key, cert_template["subject"]):
+                    subject = cert_template["subject"]
+                    if self.state.contains_pub_key(public_key, subject):
                         raise BadCertTemplate("The public key is already defined for the user.")
+                    if any(
+                        public_key == key and compare_pyasn1_names(subject, name, "without_tag")
+                        for key, name in requested_keys
+                    ):
+                        raise BadCertTemplate("The public key is requested more than once for the user.")
+                    requested_keys.append((public_key, subject))
 
     def _get_for_mac(self, request: PKIMessageTMP) -> bool:
         """Determine if the message is for MAC protection."""
-- 
2.43.0


From defc4744acb9ed87aeb39671ed7069051f952031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:08:18 +0000
Subject: [PATCH 13/49] fix: refuse undecodable requests with huge lengths
 instead of failing

---
 resources/cmputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 600ee0a..13fcb42 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -3714,7 +3714,7 @@ def parse_pkimessage(data: bytes) -> PKIMessageTMP:  # noqa D417 undocumented-pa
             for x in msgs:
                 pki_message["body"]["nested"].append(x)
 
-    except PyAsn1Error as err:
+    except (PyAsn1Error, OverflowError) as err:
         # Suppress detailed pyasn1 error messages; they are typically too verbose and
         # not helpful for non-pyasn1 experts. If debugging is needed, retrieve the server's
         # response from Robot Framework's log and manually pass it into this function.
-- 
2.43.0


From e8075d548c0fd66fa4ef029ac6ba94c7bbf6362c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:42:00 +0000
Subject: [PATCH 14/49] fix: refuse key derivation parameters with huge costs
 instead of computing for ages

---
 resources/cryptoutils.py     | 19 +++++++++++++++++++
 resources/protectionutils.py |  2 ++
 2 files changed, 21 insertions(+)

diff --git a/resources/cryptoutils.py b/resources/cryptoutils.py
index f21652a..3d59d77 100644
--- a/resources/cryptoutils.py
+++ b/resources/cryptoutils.py
@@ -53,6 +53,10 @@ from resources.oid_mapping import compute_hash, get_hash_from_oid, hash_name_to_
 from resources.oidutils import AES_CBC_OID_2_NAME, AES_GCM_OID_2_NAME, CURVE_2_COFACTORS, KM_KW_ALG
 from resources.typingutils import ECDHPrivateKey, ECDHPublicKey, SignKey, VerifyKey
 
+# Limits for the parameters of key derivation functions inside received structures.
+MAX_KDF_ITERATIONS = 2_000_000
+MAX_KDF_KEY_LENGTH = 4096
+
 
 def sign_data(  # noqa D417 undocumented-param
     data: bytes,
@@ -320,6 +324,20 @@ def compute_kmac(hash_alg: str, key: bytes, data: bytes) -> bytes:
     return digest
 
 
+def check_kdf_costs(iterations: int, key_length: int = 0) -> None:
+    """Refuse key derivation parameters of a received structure which would keep the receiver busy for ages.
+
+    :param iterations: The iteration count.
+    :param key_length: The length of the derived key. Defaults to `0` (not part of the parameters).
+    :raises BadAlg: If the iteration count or the key length is too large.
+    """
+    if iterations > MAX_KDF_ITERATIONS:
+        raise BadAlg(f"The iteration count is too large: {iterations}. Maximum: {MAX_KDF_ITERATIONS}")
+
+    if key_length > MAX_KDF_KEY_LENGTH:
+        raise BadAlg(f"The key length is too large: {key_length}. Maximum: {MAX_KDF_KEY_LENGTH}")
+
+
 @not_keyword
 def compute_pbkdf2_from_parameter(parameters: rfc8018.PBKDF2_params, key: bytes) -> bytes:
     """Compute the derived key using PBKDF2 based on the provided parameters.
@@ -331,6 +349,7 @@ def compute_pbkdf2_from_parameter(parameters: rfc8018.PBKDF2_params, key: bytes)
     salt = parameters["salt"]["specified"].asOctets()
     iterations = int(parameters["iterationCount"])
     key_length = int(parameters["keyLength"])
+    check_kdf_costs(iterations, key_length)
     prf_algorithm = parameters["prf"]["algorithm"]
 
     alg_name = get_hash_from_oid(prf_algorithm, only_hash=True)
diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 0bb0387..854611c 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -564,6 +564,7 @@ def compute_mac_from_alg_id(key: bytes, alg_id: rfc9480.AlgorithmIdentifier, dat
 
         salt = prot_params["salt"].asOctets()
         iterations = int(prot_params["iterationCount"])
+        cryptoutils.check_kdf_costs(iterations)
         hash_alg = HMAC_OID_2_NAME[prot_params["mac"]["algorithm"]].split("-")[1]
         return cryptoutils.compute_password_based_mac(
             data=data, key=key, iterations=iterations, salt=salt, hash_alg=hash_alg
@@ -626,6 +627,7 @@ def _compute_symmetric_protection(
 
         salt = prot_params["salt"].asOctets()
         iterations = int(prot_params["iterationCount"])
+        cryptoutils.check_kdf_costs(iterations)
 
         hash_alg_owf = get_hash_from_oid(prot_params["owf"]["algorithm"])
 
-- 
2.43.0


From 7c0fdcffb1047cdcfddada5426fba58508c23df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:52:38 +0000
Subject: [PATCH 15/49] fix: refuse revocation requests of signers who are not
 trusted

---
 mock_ca/ca_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index c1ccace..2d18bf7 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -751,6 +751,7 @@ class CAHandler:
             elif pki_message["body"].getName() == "rr":
                 try:
                     self.cert_req_handler.validate_header(pki_message, must_be_protected=True)
+                    self.verify_protection(pki_message)
                     response = self.process_rr(pki_message)
                 except (BadMessageCheck, BadKeyUsage, BodyRelevantError) as e:
                     response = self.rev_handler.build_rp_error_response(request=pki_message, exception=e)
-- 
2.43.0


From fe1ebfe1997755935c15a9b9e3af11a88dff46ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:54:50 +0000
Subject: [PATCH 16/49] fix: refuse ML-DSA signatures of a wrong length

---
 pq_logic/keys/sig_keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pq_logic/keys/sig_keys.py b/pq_logic/keys/sig_keys.py
index 8cbd271..08e1604 100644
--- a/pq_logic/keys/sig_keys.py
+++ b/pq_logic/keys/sig_keys.py
@@ -122,6 +122,9 @@ class MLDSAPublicKey(PQSignaturePublicKey):
         if hash_alg is None and not is_prehashed and oqs is not None:
             return super().verify(signature=signature, data=data, ctx=ctx)
 
+        if len(signature) != self.sig_size:
+            raise InvalidSignature("The ML-DSA signature has an invalid length.")
+
         ml_ = fips204.ML_DSA(self.name)
         if hash_alg is None:
             sig = ml_.verify(pk=self.public_bytes_raw(), sig=signature, m=data, ctx=ctx)
-- 
2.43.0


From e5122f93812593cfee7274a28a67baf5a5f1f5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:08:03 +0000
Subject: [PATCH 17/49] fix: let only the holder or a trusted RA revoke a
 certificate

---
 mock_ca/ca_handler.py | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 2d18bf7..6bd4884 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -67,7 +67,12 @@ from resources.certbuildutils import (
     prepare_issuing_distribution_point_extension,
     prepare_ocsp_extension,
 )
-from resources.certutils import load_public_key_from_cert, parse_certificate
+from resources.certutils import (
+    cert_in_list,
+    certificates_are_trustanchors,
+    load_public_key_from_cert,
+    parse_certificate,
+)
 from resources.checkutils import (
     check_is_protection_present,
 )
@@ -96,6 +101,7 @@ from resources.exceptions import (
     InvalidAltSignature,
     InvalidKeyData,
     NotAuthorized,
+    SignerNotTrusted,
     UnknownOID,
 )
 from resources.general_msg_utils import build_genp_kem_ct_info_from_genm
@@ -327,6 +333,7 @@ class CAHandler:
             extensions=[self.ocsp_extn, self.crl_extn],
         )
 
+        self.trusted_ras_dir = trusted_ras_dir
         self.sender = "CN=Mock CA"
         self.ca_alt_key = ca_alt_key
         self.state = mock_ca_state or MockCAState()
@@ -752,8 +759,9 @@ class CAHandler:
                 try:
                     self.cert_req_handler.validate_header(pki_message, must_be_protected=True)
                     self.verify_protection(pki_message)
+                    self._check_may_revoke(pki_message)
                     response = self.process_rr(pki_message)
-                except (BadMessageCheck, BadKeyUsage, BodyRelevantError) as e:
+                except (BadMessageCheck, BadKeyUsage, BodyRelevantError, NotAuthorized) as e:
                     response = self.rev_handler.build_rp_error_response(request=pki_message, exception=e)
 
             elif pki_message["body"].getName() == "certConf":
@@ -857,6 +865,29 @@ class CAHandler:
             pq_stateful_state=self.pq_stateful_sig_state,
         )
 
+    def _check_may_revoke(self, pki_message: PKIMessageTMP) -> None:
+        """Check if the signer is the owner of the certificate or a trusted PKI management entity.
+
+        :param pki_message: The revocation (or revive) request.
+        :raises NotAuthorized: If the signer may not revoke or revive the certificate.
+        """
+        if not pki_message["extraCerts"].isValue:
+            return
+
+        signer = pki_message["extraCerts"][0]
+        for entry in pki_message["body"]["rr"]:
+            serial_number = entry["certDetails"]["serialNumber"]
+            if not serial_number.isValue:
+                continue  # is rejected when the `certDetails` are validated.
+
+            for cert in self.state.issued_certs:
+                if int(cert["tbsCertificate"]["serialNumber"]) != int(serial_number) or cert_in_list(cert, [signer]):
+                    continue
+                try:
+                    certificates_are_trustanchors(signer, self.trusted_ras_dir, allow_os_store=False)
+                except (SignerNotTrusted, ValueError) as e:
+                    raise NotAuthorized("The signer is not allowed to revoke the certificate of another entity.") from e
+
     def process_rr(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the RR message.
 
-- 
2.43.0


From 3a5dbd444f599b2b35505626f1102cdf4750d785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:26:33 +0000
Subject: [PATCH 18/49] fix: bind KEM shared secrets to the certificate they
 were established with

---
 mock_ca/ca_handler.py | 36 ++++++++++++++++++++++++++++++++++++
 mock_ca/mock_fun.py   | 13 ++++++++++++-
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 6bd4884..5a16a07 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -70,6 +70,7 @@ from resources.certbuildutils import (
 from resources.certutils import (
     cert_in_list,
     certificates_are_trustanchors,
+    check_is_cert_signer,
     load_public_key_from_cert,
     parse_certificate,
 )
@@ -581,6 +582,7 @@ class CAHandler:
         if prot_type == ProtectedType.KEM:
             logging.debug("KEM-based MAC protection is present.")
             self.state.kem_mac_based.verify_pkimessage_protection(request=request_msg)
+            self._check_kem_session_cert(request_msg)
             return
 
         self.protection_handler.validate_protection(
@@ -820,6 +822,37 @@ class CAHandler:
             issued_certs=self.state.issued_certs,
         )
 
+    def _check_kem_session_cert(self, pki_message: PKIMessageTMP) -> None:
+        """Check if the certificate, which the shared secret was established with, may still be used.
+
+        :param pki_message: The KEM-based MAC protected request.
+        :raises CertRevoked: If the certificate was revoked or updated since then.
+        """
+        kem_cert = self.state.kem_mac_based.get_kem_cert(pki_message)
+        if kem_cert is None:
+            return
+        if self.rev_handler.is_revoked(kem_cert):
+            raise CertRevoked("The KEM certificate was revoked and cannot be used for new requests.")
+        self.rev_handler.validate_is_updated(body_name=pki_message["body"].getName(), cert=kem_cert)
+
+    def _check_kem_cert(self, kem_cert: rfc9480.CMPCertificate) -> None:
+        """Check if the KEM certificate may be used to establish a shared secret.
+
+        :param kem_cert: The KEM certificate of the client.
+        :raises SignerNotTrusted: If the certificate was not issued by the CA.
+        :raises NotAuthorized: If the certificate is not confirmed.
+        """
+        try:
+            trusted = check_is_cert_signer(kem_cert, self.ca_cert)
+        except (ValueError, UnknownOID) as e:
+            raise SignerNotTrusted("The issuer of the KEM certificate could not be checked.") from e
+
+        if not trusted:
+            raise SignerNotTrusted("The KEM certificate was not issued by the CA.")
+
+        if self.state.certificate_db.get_cert_state(kem_cert) == CertStateEnum.NOT_CONFIRMED:
+            raise NotAuthorized("The KEM certificate must be confirmed, before it can be used.")
+
     def process_genm(self, pki_message: PKIMessageTMP) -> Tuple[PKIMessageTMP, bool]:
         """Process the GenM message.
 
@@ -831,6 +864,8 @@ class CAHandler:
 
         if pki_message["header"]["protectionAlg"].isValue:
             self.protection_handler.validate_protection(pki_message, self.get_cc_certs())
+            if ProtectedType.get_protection_type(pki_message) == ProtectedType.KEM:
+                self._check_kem_session_cert(pki_message)
 
         if pki_message["body"]["genm"][0]["infoType"] == id_it_KemCiphertextInfo:
             if pki_message["header"]["protectionAlg"].isValue:
@@ -839,6 +874,7 @@ class CAHandler:
             if not pki_message["extraCerts"].isValue:
                 raise BadRequest("The extraCerts field was not set for KEMCiphertextInfo.")
 
+            self._check_kem_cert(pki_message["extraCerts"][0])
             ss, genp = build_genp_kem_ct_info_from_genm(
                 genm=pki_message,
             )
diff --git a/mock_ca/mock_fun.py b/mock_ca/mock_fun.py
index a78fc60..bf7f088 100644
--- a/mock_ca/mock_fun.py
+++ b/mock_ca/mock_fun.py
@@ -19,7 +19,7 @@ from mock_ca.operation_dbs import SunHybridState
 from pq_logic.keys.abstract_wrapper_keys import HybridPublicKey, KEMPublicKey
 from resources import ca_ra_utils, certutils, keyutils
 from resources.asn1_structures import PKIMessageTMP
-from resources.certutils import load_public_key_from_cert
+from resources.certutils import cert_in_list, load_public_key_from_cert
 from resources.cmputils import get_cmp_message_type
 from resources.compareutils import compare_pyasn1_names
 from resources.convertutils import copy_asn1_certificate, ensure_is_trad_sign_key
@@ -554,6 +554,7 @@ class KEMSharedSecretList:
             shared_secret=ss,
             transaction_id=request["header"]["transactionID"].asOctets(),
             sender=request["header"]["sender"],
+            kem_cert=request["extraCerts"][0] if request["extraCerts"].isValue else None,
         )
         self.shared_secrets.append(states)
 
@@ -586,6 +587,11 @@ class KEMSharedSecretList:
                 return shared_secret
         return None
 
+    def get_kem_cert(self, request: PKIMessageTMP) -> Optional[rfc9480.CMPCertificate]:
+        """Get the KEM certificate, which the shared secret for the given transaction ID was established with."""
+        kem_object = self.get_shared_secret_object(request)
+        return None if kem_object is None else kem_object.kem_cert
+
     def verify_pkimessage_protection(self, request: PKIMessageTMP) -> None:
         """Check if the request is protected by a KEM shared secret.
 
@@ -597,6 +603,11 @@ class KEMSharedSecretList:
         if not result:
             raise BadMessageCheck("Shared secret MUST be provided for KEM-based protection.")
 
+        kem_cert = self.get_kem_cert(request)
+        if kem_cert is not None and request["extraCerts"].isValue:
+            if not cert_in_list(kem_cert, [request["extraCerts"][0]]):
+                raise BadMessageCheck("The shared secret was not established with the certificate of the request.")
+
         body_name = get_cmp_message_type(request)
         if body_name == "certConf":
             shared_secret = self.get_shared_secret(request)
-- 
2.43.0


From 6b919884c77ffabf03dfc52e7f64b6edcfc605be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:29:23 +0000
Subject: [PATCH 19/49] fix: keep the KEM shared secret of a transaction for
 the request after a forged revocation request

---
 mock_ca/ca_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 5a16a07..e3d3a42 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -765,6 +765,7 @@ class CAHandler:
                     response = self.process_rr(pki_message)
                 except (BadMessageCheck, BadKeyUsage, BodyRelevantError, NotAuthorized) as e:
                     response = self.rev_handler.build_rp_error_response(request=pki_message, exception=e)
+                    return self.sign_response(response=response, request_msg=pki_message)
 
             elif pki_message["body"].getName() == "certConf":
                 response = self.process_cert_conf(pki_message)
-- 
2.43.0


From 79f7aa9f2dccc16b465d1681165803352b45fc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:39:15 +0000
Subject: [PATCH 20/49] fix: answer a malformed stateful signature with
 badMessageCheck instead of systemFailure

---
 mock_ca/stfl_validator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mock_ca/stfl_validator.py b/mock_ca/stfl_validator.py
index 270a44f..4dfa51e 100644
--- a/mock_ca/stfl_validator.py
+++ b/mock_ca/stfl_validator.py
@@ -7,6 +7,7 @@
 import logging
 from typing import List, Optional
 
+from cryptography.exceptions import InvalidSignature
 from pyasn1_alt_modules import rfc6402, rfc9480
 
 from mock_ca.mock_fun import PQStatefulSigKeyConfig
@@ -98,7 +99,10 @@ class STFLPKIMessageValidator:
             )
 
         signature = pki_message["protection"].asOctets()
-        index = get_pq_stateful_sig_index_from_sig(signature, public_key)
+        try:
+            index = get_pq_stateful_sig_index_from_sig(signature, public_key)
+        except (InvalidSignature, ValueError) as e:
+            raise BadMessageCheck("The Stateful signature of the PKIMessage is malformed.") from e
 
         if state.contains_used_index(index):
             raise BadMessageCheck(
-- 
2.43.0


From 3c0c28c219bd4c20491e3f3669d317cedf5ca16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:40:35 +0000
Subject: [PATCH 21/49] fix: track the indices of stateful signatures per key
 and check those of proofs of possession

---
 mock_ca/cert_req_handler.py |  5 +++++
 mock_ca/operation_dbs.py    | 32 ++++++++++++++++++--------------
 mock_ca/stfl_validator.py   | 31 ++++++++++++++++++++++++++++++-
 3 files changed, 53 insertions(+), 15 deletions(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index cdbb7f7..9c8d505 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -345,6 +345,8 @@ class CertReqHandler:
         else:
             self.state.add_certs(certs=certs, was_confirmed=False)
             self.add_request_for_cert_conf(request=request, response=response, certs=certs)
+            if self.stfl_validator is not None:
+                self.stfl_validator.process_stfl_after_request(request=request, certs=certs, confirmed=True)
 
         return response
 
@@ -697,6 +699,9 @@ class CertReqHandler:
 
             validate_cert_req_id_nums(pki_message)
 
+            if self.stfl_validator is not None:
+                self.stfl_validator.validate_popo_indices(pki_message)
+
             if msg_type == "ir":
                 response = self.process_ir(pki_message, verify_ra_verified=verify_ra_verified)
             elif msg_type == "cr":
diff --git a/mock_ca/operation_dbs.py b/mock_ca/operation_dbs.py
index ef30ad3..edb3710 100644
--- a/mock_ca/operation_dbs.py
+++ b/mock_ca/operation_dbs.py
@@ -10,11 +10,10 @@ from cryptography.hazmat.primitives.asymmetric.ec import EllipticCurvePrivateKey
 from cryptography.hazmat.primitives.asymmetric.rsa import RSAPrivateKey
 from cryptography.hazmat.primitives.asymmetric.x448 import X448PrivateKey
 from cryptography.hazmat.primitives.asymmetric.x25519 import X25519PrivateKey
-from pyasn1_alt_modules import rfc9480
+from pyasn1_alt_modules import rfc5280, rfc9480
 
 from pq_logic.keys.abstract_pq import PQSignaturePrivateKey
 from pq_logic.keys.abstract_wrapper_keys import HybridKEMPrivateKey
-from resources.asn1utils import encode_to_der
 from resources.certutils import build_cert_chain_from_dir, parse_certificate
 from resources.convertutils import ensure_is_sign_key, str_to_bytes
 from resources.exceptions import BadConfig, BadRequest
@@ -459,21 +458,26 @@ class StatefulSigState:
     used_indices: Dict[bytes, StatefulSigKeyState] = field(default_factory=dict)
     hash_alg: str = "sha256"
 
+    def _get_key_id(self, spki: rfc5280.SubjectPublicKeyInfo) -> bytes:
+        """Return the identifier of a public key, because the indices belong to the key and not to a certificate."""
+        return compute_hash(self.hash_alg, spki["subjectPublicKey"].asOctets())
+
     def add_state(self, cert: rfc9480.CMPCertificate, state: Optional[StatefulSigKeyState] = None) -> None:
-        """Add a state for a given certificate."""
-        der_data = encode_to_der(cert)
-        hashed_cert = compute_hash(self.hash_alg, der_data)
-        if hashed_cert in self.used_indices:
-            raise BadRequest("State for this certificate already exists.")
-        self.used_indices[hashed_cert] = state or StatefulSigKeyState(used_indices=[0])
+        """Add a state for the key of a given certificate, or add the used indices to the state of the key."""
+        state = state or StatefulSigKeyState(used_indices=[0])
+        key_id = self._get_key_id(cert["tbsCertificate"]["subjectPublicKeyInfo"])
+        if key_id in self.used_indices:
+            self.used_indices[key_id].used_indices.extend(state.used_indices)
+        else:
+            self.used_indices[key_id] = state
+
+    def get_key_state(self, spki: rfc5280.SubjectPublicKeyInfo) -> Optional[StatefulSigKeyState]:
+        """Get the state for a given public key."""
+        return self.used_indices.get(self._get_key_id(spki))
 
     def get_state(self, cert: rfc9480.CMPCertificate) -> Optional[StatefulSigKeyState]:
-        """Get the state for a given certificate."""
-        der_data = encode_to_der(cert)
-        hashed_cert = compute_hash(self.hash_alg, der_data)
-        if hashed_cert not in self.used_indices:
-            return None
-        return self.used_indices[hashed_cert]
+        """Get the state for the key of a given certificate."""
+        return self.get_key_state(cert["tbsCertificate"]["subjectPublicKeyInfo"])
 
     def add_used_index(self, cert: rfc9480.CMPCertificate, index: int) -> None:
         """Add a used index for a given certificate."""
diff --git a/mock_ca/stfl_validator.py b/mock_ca/stfl_validator.py
index 4dfa51e..d261eaf 100644
--- a/mock_ca/stfl_validator.py
+++ b/mock_ca/stfl_validator.py
@@ -18,7 +18,7 @@ from resources.asn1_structures import PKIMessageTMP
 from resources.ca_ra_utils import get_cert_template_from_pkimessage, get_popo_from_pkimessage
 from resources.certutils import load_public_key_from_cert
 from resources.cmputils import get_cmp_message_type
-from resources.exceptions import BadMessageCheck, BadRequest, InvalidKeyData
+from resources.exceptions import BadMessageCheck, BadPOP, BadRequest, InvalidKeyData
 from resources.keyutils import get_pq_stateful_sig_index_from_sig, load_public_key_from_spki
 from resources.oidutils import PQ_STATEFUL_HASH_SIG_OID_2_NAME
 from resources.suiteenums import ProtectedType
@@ -147,6 +147,35 @@ class STFLPKIMessageValidator:
         state = StatefulSigKeyState(used_indices=[index])
         return state
 
+    def validate_popo_indices(self, request: PKIMessageTMP) -> None:
+        """Validate that the proofs-of-possession of Stateful signature keys do not reuse a signature index.
+
+        :param request: The certificate request.
+        :raises BadPOP: If an index was already used, or the signature is malformed.
+        """
+        body_name = request["body"].getName()
+        for i in range(1 if body_name == "p10cr" else len(request["body"][body_name])):
+            if body_name == "p10cr":
+                spki = request["body"]["p10cr"]["certificationRequestInfo"]["subjectPublicKeyInfo"]
+            else:
+                spki = get_cert_template_from_pkimessage(request, i)["publicKey"]
+            if (
+                not spki.isValue
+                or spki["algorithm"]["algorithm"] not in PQ_STATEFUL_HASH_SIG_OID_2_NAME
+                or spki["subjectPublicKey"].asOctets() == b""
+            ):
+                continue
+
+            try:
+                popo_state = self._get_popo_sig(request, i)
+            except (InvalidSignature, ValueError) as e:
+                raise BadPOP("The Stateful signature of the POPO is malformed.") from e
+
+            state = self._stfl_state.get_key_state(spki)
+            if popo_state is not None and state is not None:
+                if any(state.contains_used_index(index) for index in popo_state.used_indices):
+                    raise BadPOP("The index of the Stateful signature of the POPO has already been used.")
+
     def _may_add_delta_cert(self, delta_cert: rfc9480.CMPCertificate, csr: rfc6402.CertificationRequest) -> None:
         """Add a delta certificate to the CA handler.
 
-- 
2.43.0


From 7d544b431ad5b792e45a07e6d0667c15db8c4ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:43:48 +0000
Subject: [PATCH 22/49] fix: refuse an unprotected kur or ccr inside a nested
 message with badMessageCheck

---
 mock_ca/prot_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mock_ca/prot_handler.py b/mock_ca/prot_handler.py
index 8d3959f..0faa5d0 100644
--- a/mock_ca/prot_handler.py
+++ b/mock_ca/prot_handler.py
@@ -916,7 +916,7 @@ class ProtectionHandler:
         if not must_be_protected and body_name not in ["rr", "kur", "ccr"] and not is_protected:
             return
 
-        if not is_protected and must_be_protected:
+        if not is_protected:
             raise BadMessageCheck("The inner added protected PKIMessage protection algorithm is not set.")
 
         prot_type = ProtectedType.get_protection_type(pki_message)
-- 
2.43.0


From e3f56eb749854dbae32dba4d03a2a89c8a45d08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:45:04 +0000
Subject: [PATCH 23/49] fix: check the requests inside nested messages like
 other requests, and whole batches before processing them

---
 mock_ca/ca_handler.py     |  20 ++++
 mock_ca/nested_handler.py | 224 ++++++++++++++++++++++----------------
 2 files changed, 153 insertions(+), 91 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index e3d3a42..bf48b63 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -439,6 +439,7 @@ class CAHandler:
             cert_req_handler=self.cert_req_handler,
             cert_conf_handler=self.cert_conf_handler,
             allow_inner_unprotected=True,
+            request_checker=self._check_inner_request,
         )
         self.challenge_handler = ChallengeHandler(
             ca_key=self.ca_key,
@@ -890,6 +891,25 @@ class CAHandler:
 
         return self.genm_handler.process_general_msg(pki_message), True
 
+    def _check_inner_request(self, pki_message: PKIMessageTMP) -> None:
+        """Check if a request inside a nested message is allowed to be made.
+
+        :param pki_message: The inner request.
+        """
+        if pki_message["extraCerts"].isValue:
+            self._is_allowed_to_make_a_request(pki_message)
+
+        if (
+            pki_message["header"]["protectionAlg"].isValue
+            and ProtectedType.get_protection_type(pki_message) == ProtectedType.KEM
+        ):
+            self._check_kem_session_cert(pki_message)
+
+        if pki_message["body"].getName() in ["ir", "cr", "p10cr", "ccr", "kur"]:
+            self._check_for_compromised_key(pki_message)
+
+        self._check_is_not_confirmed(pki_message)
+
     def process_nested_request(self, request_msg: PKIMessageTMP) -> PKIMessageTMP:
         """Process the nested request.
 
diff --git a/mock_ca/nested_handler.py b/mock_ca/nested_handler.py
index 4a97cf9..7529607 100644
--- a/mock_ca/nested_handler.py
+++ b/mock_ca/nested_handler.py
@@ -6,7 +6,7 @@
 
 import copy
 import logging
-from typing import Optional
+from typing import Callable, Optional
 
 from pyasn1.codec.der import encoder
 
@@ -21,7 +21,7 @@ from resources.checkutils import (
     validate_nested_message_unique_nonces_and_ids,
 )
 from resources.cmputils import build_nested_pkimessage, get_cmp_message_type, parse_pkimessage
-from resources.exceptions import BadRecipientNonce, BadRequest
+from resources.exceptions import BadRecipientNonce, BadRequest, CMPTestSuiteError
 
 
 class NestedHandler:
@@ -32,17 +32,20 @@ class NestedHandler:
         cert_req_handler: CertReqHandler,
         cert_conf_handler: CertConfHandler,
         allow_inner_unprotected: bool = True,
+        request_checker: Optional[Callable[[PKIMessageTMP], None]] = None,
     ):
         """Initialize the handler with the parent.
 
         :param cert_req_handler: The certificate request handler, to process the requests.
         :param cert_conf_handler: The certificate confirmation handler, to process confirmation messages.
         :param allow_inner_unprotected: If inner unprotected messages are allowed. Defaults to `True`.
+        :param request_checker: Checks if an inner request is allowed. Defaults to `None`.
         """
         self.cert_req_handler = cert_req_handler
         self.cert_conf_handler = cert_conf_handler
         self.check_sender = False
         self.allow_inner_unprotected = allow_inner_unprotected
+        self.request_checker = request_checker
 
     def _check_sender(self, request: PKIMessageTMP) -> None:
         """Check the sender of the request is allowed to forward the request or add protection.
@@ -69,21 +72,19 @@ class NestedHandler:
 
         return get_cmp_message_type(request["body"]["nested"][index])
 
-    def _process_added_protection_request(
+    def _verify_added_protection_request(
         self,
         request: PKIMessageTMP,
         prot_handler: ProtectionHandler,
         pq_stateful_state: Optional[StatefulSigState] = None,
-    ) -> PKIMessageTMP:
-        """Process the added protection request.
+    ) -> None:
+        """Verify the added protection request.
 
-        :param request: The request to process.
+        :param request: The request to verify.
         :param prot_handler: The protection handler to use, to validate the protection, of the request.
-        Defaults to `None`.
         :param pq_stateful_state: The state for stateful signatures, if needed.
         """
         validate_add_protection_tx_id_and_nonces(request)
-        body_name = NestedHandler.get_nested_body_name(request, 0)
         inner_msg = request["body"]["nested"][0]
 
         check_is_protection_present(inner_msg, must_be_protected=not self.allow_inner_unprotected)
@@ -94,28 +95,63 @@ class NestedHandler:
             pq_stateful_state=pq_stateful_state,
         )
 
-        if body_name in ["ir", "cr", "p10cr", "kur", "ccr"]:
-            response = self.cert_req_handler.process_cert_request(
-                pki_message=inner_msg,
-                verify_ra_verified=True,
-                must_be_protected=not self.allow_inner_unprotected,
+        if NestedHandler.get_nested_body_name(request, 0) not in ["ir", "cr", "p10cr", "kur", "ccr", "certConf"]:
+            raise BadRequest(
+                "The request type is not supported. "
+                "Only 'ir', 'cr', 'p10cr', 'kur', 'ccr' are supported for added protection requests."
             )
+        self._check_inner_request(inner_msg)
+
+    def _check_inner_request(self, request: PKIMessageTMP) -> None:
+        """Check if the inner request is allowed, as it would be for a request, which is not nested.
+
+        :param request: The inner request, with a verified protection.
+        """
+        if self.request_checker is not None:
+            self.request_checker(request)
+
+    def _process_inner_request(self, request: PKIMessageTMP) -> PKIMessageTMP:
+        """Process an inner request, with a verified protection.
 
-        elif body_name == "certConf":
+        :param request: The inner request.
+        :return: The unprotected response.
+        """
+        if request["body"].getName() == "certConf":
             response, ccp_cert = self.cert_conf_handler.process_cert_conf(
-                pki_message=inner_msg,
+                pki_message=request,
             )
             if ccp_cert is not None:
                 self.cert_req_handler.get_cross_signed_certs().append(ccp_cert)
+            return response
 
-        else:
-            raise BadRequest(
-                "The request type is not supported. "
-                "Only 'ir', 'cr', 'p10cr', 'kur', 'ccr' are supported for added protection requests."
-            )
+        # If somebody decides that `verify_ra_verified` can be set to `False`,
+        # because the sender of the nested message is trusted.
+        # But for `kur` and `ccr` MUST be set to `False`.
+        return self.cert_req_handler.process_cert_request(
+            pki_message=request,
+            verify_ra_verified=True,
+            must_be_protected=not self.allow_inner_unprotected,
+        )
 
+    def _process_added_protection_request(
+        self,
+        request: PKIMessageTMP,
+        prot_handler: ProtectionHandler,
+        pq_stateful_state: Optional[StatefulSigState] = None,
+    ) -> PKIMessageTMP:
+        """Process the added protection request.
+
+        :param request: The request to process.
+        :param prot_handler: The protection handler to use, to validate the protection, of the request.
+        Defaults to `None`.
+        :param pq_stateful_state: The state for stateful signatures, if needed.
+        """
+        self._verify_added_protection_request(request, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state)
+        inner_msg = request["body"]["nested"][0]
         return prot_handler.protect_pkimessage(
-            response=response, request=inner_msg, add_certs=self.cert_req_handler.ca_cert_chain
+            response=self._process_inner_request(inner_msg),
+            request=inner_msg,
+            add_certs=self.cert_req_handler.ca_cert_chain,
         )
 
     def process_nested_request(
@@ -232,86 +268,92 @@ class NestedHandler:
                 "Which contains requests of type `ir`, `cr`, `kur`, `p10cr`, `rr`."
             )
 
-    def process_batched_request(
+    def _verify_batch_entry(
         self,
-        request: PKIMessageTMP,
+        entry: PKIMessageTMP,
+        index: int,
         prot_handler: ProtectionHandler,
         pq_stateful_state: Optional[StatefulSigState] = None,
-    ) -> PKIMessageTMP:
-        """Process the batched request."""
-        out = []
-        self._check_nonces(request)
+    ) -> None:
+        """Verify a message of a batch.
 
-        for i, entry in enumerate(request["body"]["nested"]):
-            if not entry["body"].isValue:
-                raise BadRequest("The body is not set")
+        :param entry: The message of the batch.
+        :param index: The index of the message.
+        :param prot_handler: The protection handler to use, to validate the protection.
+        :param pq_stateful_state: The state for stateful signatures, if needed.
+        """
+        if not entry["body"].isValue:
+            raise BadRequest("The body is not set")
 
-            if entry["body"].getName() == "nested":
-                if len(entry["body"]["nested"]) != 1:
-                    raise BadRequest(
-                        "The Mock CA only supports one level of nested requests"
-                        ", but allows a added protection request. "
-                        f"Got length: {len(entry['body']['nested'])}."
-                    )
-                response = self._process_added_protection_request(
-                    entry, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state
+        body_name = entry["body"].getName()
+        if body_name == "nested":
+            if len(entry["body"]["nested"]) != 1:
+                raise BadRequest(
+                    "The Mock CA only supports one level of nested requests"
+                    ", but allows a added protection request. "
+                    f"Got length: {len(entry['body']['nested'])}."
                 )
-                out.append(response)
+            prot_handler.verify_nested_protection(
+                pki_message=entry,
+                cc_certs=self.cert_req_handler.get_cross_signed_certs(),
+                pq_stateful_state=pq_stateful_state,
+            )
+            self._verify_added_protection_request(entry, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state)
+            return
 
-            elif entry["body"].getName() == "certConf":
-                response, ccp_cert = self.cert_conf_handler.process_cert_conf(
-                    pki_message=entry,
-                )
-                if ccp_cert is not None:
-                    self.cert_req_handler.get_cross_signed_certs().append(ccp_cert)
+        if body_name not in ["cr", "ir", "p10cr", "kur", "ccr", "certConf"]:
+            raise BadRequest(
+                f"The request type is not supported for batched requests: {body_name}. "
+                "Only `ir`, `cr`, `p10cr`, `kur`, `ccr` and `certConf` are supported."
+            )
 
-                response = prot_handler.protect_pkimessage(
-                    response=response,
-                    request=entry,
-                )
-                out.append(response)
+        check_is_protection_present(entry, must_be_protected=not self.allow_inner_unprotected)
+        prot_handler.verify_inner_batch_pkimessage(
+            pki_message=entry,
+            cc_certs=self.cert_req_handler.get_cross_signed_certs(),
+            must_be_protected=not self.allow_inner_unprotected,
+            index=index,
+            pq_stateful_state=pq_stateful_state,
+        )
+        self._check_inner_request(entry)
 
-            else:
-                check_is_protection_present(entry, must_be_protected=not self.allow_inner_unprotected)
-                prot_handler.verify_inner_batch_pkimessage(
-                    pki_message=entry,
-                    cc_certs=self.cert_req_handler.get_cross_signed_certs(),
-                    must_be_protected=not self.allow_inner_unprotected,
-                    index=i,
-                    pq_stateful_state=pq_stateful_state,
-                )
-                if entry["body"].getName() in ["cr", "ir", "p10cr"]:
-                    # Different if cases, if somebody decides that
-                    # `verify_ra_verified` can be set to `False`, because
-                    # the batched sender is trusted.
-                    # But for `kur` and `ccr` MUST be set to `False`.
-                    response = self.cert_req_handler.process_cert_request(
-                        entry,
-                        must_be_protected=not self.allow_inner_unprotected,
-                        verify_ra_verified=True,
-                    )
-                    response = prot_handler.protect_pkimessage(
-                        response=response,
-                        request=entry,
-                    )
-                    out.append(response)
-                elif entry["body"].getName() in ["kur", "ccr"]:
-                    response = self.cert_req_handler.process_cert_request(
-                        pki_message=entry,
-                        must_be_protected=not self.allow_inner_unprotected,
-                        verify_ra_verified=True,
-                    )
-                    response = prot_handler.protect_pkimessage(
-                        response=response,
-                        request=entry,
-                    )
-                    out.append(response)
+    def _process_batch_entry(self, entry: PKIMessageTMP, prot_handler: ProtectionHandler) -> PKIMessageTMP:
+        """Process a verified message of a batch.
 
-                else:
-                    raise NotImplementedError(
-                        f"Not implemented to handle the body: {entry['body'].getName()} for batched requests,"
-                        f"only support `ir`."
-                    )
+        :param entry: The message of the batch.
+        :param prot_handler: The protection handler to use, to protect the response.
+        :return: The protected response.
+        """
+        kwargs = {}
+        if entry["body"].getName() == "nested":
+            entry = entry["body"]["nested"][0]
+            kwargs["add_certs"] = self.cert_req_handler.ca_cert_chain
+
+        try:
+            # The messages before this one may have changed what is allowed.
+            self._check_inner_request(entry)
+            response = self._process_inner_request(entry)
+        except CMPTestSuiteError as e:
+            response = self.cert_req_handler.error_body(e, request=entry)
+
+        return prot_handler.protect_pkimessage(response=response, request=entry, **kwargs)
+
+    def process_batched_request(
+        self,
+        request: PKIMessageTMP,
+        prot_handler: ProtectionHandler,
+        pq_stateful_state: Optional[StatefulSigState] = None,
+    ) -> PKIMessageTMP:
+        """Process the batched request.
+
+        The whole batch is verified, before one of its messages is processed.
+        """
+        self._check_nonces(request)
+
+        for i, entry in enumerate(request["body"]["nested"]):
+            self._verify_batch_entry(entry, i, prot_handler=prot_handler, pq_stateful_state=pq_stateful_state)
+
+        out = [self._process_batch_entry(entry, prot_handler) for entry in request["body"]["nested"]]
 
         pki_message = build_nested_pkimessage(
             other_messages=out,
-- 
2.43.0


From d49ae7dfbba22824a1c4b4d618d19a49b560bedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:03 +0000
Subject: [PATCH 24/49] fix: use the KEM ciphertext of the header to answer a
 challenge for a KEM key

---
 resources/extra_issuing_logic.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/resources/extra_issuing_logic.py b/resources/extra_issuing_logic.py
index 2d1de5d..adbc63a 100644
--- a/resources/extra_issuing_logic.py
+++ b/resources/extra_issuing_logic.py
@@ -21,6 +21,7 @@ from robot.api.deco import keyword, not_keyword
 
 from pq_logic.keys.abstract_wrapper_keys import KEMPrivateKey, KEMPublicKey
 from pq_logic.pq_utils import is_kem_private_key, is_kem_public_key
+from pq_logic.tmp_oids import id_it_KemCiphertextInfo
 from resources import (
     asn1utils,
     ca_kga_logic,
@@ -34,7 +35,7 @@ from resources import (
     protectionutils,
     utils,
 )
-from resources.asn1_structures import ChallengeASN1, PKIMessageTMP
+from resources.asn1_structures import ChallengeASN1, KemCiphertextInfoAsn1, PKIMessageTMP
 from resources.convertutils import str_to_bytes
 from resources.cryptoutils import compute_aes_cbc, perform_ecdh
 from resources.exceptions import BadAsn1Data, BadRequest, InvalidKeyCombination
@@ -550,7 +551,13 @@ def process_pkimessage_with_popdecc(  # noqa D417 undocumented-param
             kari_cert=kwargs.get("kari_cert"),
             pki_message=pki_message,
         )
-        rand = process_simple_challenge(challenge=challenge, ee_key=ee_key, iv=iv, ca_pub_key=ca_pub_key)
+        rand = process_simple_challenge(
+            challenge=challenge,
+            ee_key=ee_key,
+            iv=iv,
+            ca_pub_key=ca_pub_key,
+            kemct=_get_kemct_from_general_info(pki_message),
+        )
 
     num = rand["int"]
     if expected_sender is not None:
@@ -570,6 +577,24 @@ def process_pkimessage_with_popdecc(  # noqa D417 undocumented-param
     return response
 
 
+def _get_kemct_from_general_info(pki_message: PKIMessageTMP) -> Optional[bytes]:
+    """Return the KEM ciphertext of the `KemCiphertextInfo` in the `generalInfo` field, if present.
+
+    :param pki_message: The PKIMessage, which may contain the `KemCiphertextInfo`.
+    :return: The KEM ciphertext or `None`.
+    """
+    if not pki_message["header"]["generalInfo"].isValue:
+        return None
+
+    for entry in pki_message["header"]["generalInfo"]:
+        if entry["infoType"] == id_it_KemCiphertextInfo:
+            kem_ct_info, rest = decoder.decode(entry["infoValue"].asOctets(), asn1Spec=KemCiphertextInfoAsn1())
+            if rest:
+                raise BadAsn1Data("KemCiphertextInfo")
+            return kem_ct_info["ct"].asOctets()
+    return None
+
+
 @not_keyword
 def validate_popdecc_version(pki_message: PKIMessageTMP) -> None:
     """Validate the PKIMessage version against the presence of the encryptedRand and challenge fields.
-- 
2.43.0


From d265e11bfc58e0fdb7660862d44b385ac5e70852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:32:03 +0000
Subject: [PATCH 25/49] fix: register the certificates issued after a
 challenge, and check their requests

---
 mock_ca/ca_handler.py        | 21 ++++++++++-
 mock_ca/challenge_handler.py | 72 +++++++++++++++++-------------------
 2 files changed, 54 insertions(+), 39 deletions(-)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index bf48b63..339afba 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -736,6 +736,7 @@ class CAHandler:
 
             if pki_message["body"].getName() in ["ir", "cr"]:
                 if _contains_challenge(pki_message):
+                    self._check_challenged_request(pki_message)
                     response, ecc_key = self.challenge_handler.handle_challenge(pki_message)  # type: ignore
                     response: PKIMessageTMP
                     ecc_key: ECDHPrivateKey
@@ -746,10 +747,14 @@ class CAHandler:
                         secondary_cert=cert,
                     )
             if pki_message["body"].getName() == "popdecr":
+                cert_request = self.challenge_handler.get_challenged_request(pki_message)
+                self._check_challenged_request(cert_request)
                 response, certs = self.challenge_handler.handle_challenge(pki_message)  # type: ignore
                 response: PKIMessageTMP
                 certs: List[rfc9480.CMPCertificate]
-                self.state.add_certs(certs=certs)
+                response = self.cert_req_handler.process_after_request(
+                    request=cert_request, response=response, certs=certs
+                )
             elif pki_message["body"].getName() == "nested":
                 return self.process_nested_request(pki_message)
             elif pki_message["body"].getName() in ["ir", "cr", "p10cr", "kur", "ccr"]:
@@ -910,6 +915,20 @@ class CAHandler:
 
         self._check_is_not_confirmed(pki_message)
 
+    def _check_challenged_request(self, pki_message: PKIMessageTMP) -> None:
+        """Check if a certificate may be issued for a request with a challenge.
+
+        :param pki_message: The certificate request.
+        """
+        if pki_message["extraCerts"].isValue:
+            self._is_allowed_to_make_a_request(pki_message)
+        self._check_for_compromised_key(pki_message)
+        validate_cert_req_id_nums(pki_message)
+        self.cert_req_handler.check_same_key_cert_request(pki_message)
+        self.cert_req_handler.check_cert_is_updated(pki_message)
+        if pki_message["body"].getName() == "cr":
+            self.cert_req_handler.check_signer_is_a_issued_cert(pki_message)
+
     def process_nested_request(self, request_msg: PKIMessageTMP) -> PKIMessageTMP:
         """Process the nested request.
 
diff --git a/mock_ca/challenge_handler.py b/mock_ca/challenge_handler.py
index f6c5dcf..e08f561 100644
--- a/mock_ca/challenge_handler.py
+++ b/mock_ca/challenge_handler.py
@@ -18,11 +18,11 @@ from pq_logic.keys.abstract_wrapper_keys import KEMPublicKey
 from pq_logic.keys.trad_kem_keys import RSAEncapKey
 from resources.asn1_structures import PKIMessageTMP
 from resources.ca_ra_utils import (
+    build_cp_cmp_message,
     build_ip_cmp_message,
     build_popdecc_from_request,
     get_cert_template_from_pkimessage,
     get_popo_from_pkimessage,
-    prepare_cert_response,
 )
 from resources.certbuildutils import build_cert_from_cert_template
 from resources.exceptions import BadCertTemplate, BadRequest
@@ -38,7 +38,7 @@ class ChallengeHandler:
     The `encrCert` challenge is directly supported inside the `CertRequestHandler`.
     """
 
-    challenge: Dict[Tuple[int, bytes], Tuple[rfc9480.CertTemplate, str]]
+    challenge: Dict[Tuple[int, bytes], PKIMessageTMP]
 
     def __init__(
         self,
@@ -105,12 +105,10 @@ class ChallengeHandler:
         if request["header"]["pvno"] == 3 and prot_type == "mac":
             raise BadRequest("The challenge request was version 3, and MAC protected, this is not allowed!")
 
-        body_name = request["body"].getName()
         num = int.from_bytes(os.urandom(4), "big")
         ca_key = self._get_ca_key(request)
         response, num = build_popdecc_from_request(
             request=request,
-            challenge=self.challenge,
             rand_int=num,
             ca_key=ca_key,
             expected_size=1,
@@ -118,46 +116,44 @@ class ChallengeHandler:
             cmp_protection_cert=self.cmp_protection_cert,
         )
         tx_id = request["header"]["transactionID"].asOctets()
-        self.challenge[(num, tx_id)] = (request["body"][body_name][0]["certReq"]["certTemplate"], body_name)
+        self.challenge[(num, tx_id)] = request
 
         return response, ca_key
 
+    def get_challenged_request(self, request: PKIMessageTMP) -> PKIMessageTMP:
+        """Return the certificate request, whose challenge is answered.
+
+        :param request: The `popdecr` message.
+        :return: The certificate request.
+        :raises BadRequest: If the message does not answer exactly one open challenge of its transaction.
+        """
+        if len(request["body"]["popdecr"]) != 1 or not request["header"]["transactionID"].isValue:
+            raise BadRequest("The `popdecr` message must answer exactly one challenge of its transaction.")
+
+        entry = request["body"]["popdecr"][0]
+        challenge = (int(entry), request["header"]["transactionID"].asOctets())
+        if challenge not in self.challenge:
+            raise BadRequest(f"The challenge number is not found. Got: {entry}")
+        return self.challenge[challenge]
+
     def _process_popdecr(self, request: PKIMessageTMP) -> Tuple[PKIMessageTMP, List[rfc9480.CMPCertificate]]:
         """Process the popdecr response."""
-        certs = []
-        body_name = None
-        tx_id = request["header"]["transactionID"].asOctets()
-        for entry in request["body"]["popdecr"]:
-            tmp_entry = (int(entry), tx_id)
-            if tmp_entry not in self.challenge:
-                raise BadRequest(f"The challenge number is not found. Got: {entry}")
-            out = self.challenge[tmp_entry]
-            cert = build_cert_from_cert_template(
-                cert_template=out[0],
-                ca_key=self.ca_key,
-                ca_cert=self.ca_cert,
-                extensions=self.extensions,
-            )
-            del self.challenge[tmp_entry]
-            if body_name is None:
-                body_name = out[1]
-            certs.append(cert)
-
-        if body_name == "ir":
-            responses = []
-            for cert in certs:
-                cert_resp = prepare_cert_response(
-                    cert=cert,
-                )
-                responses.append(cert_resp)
-        else:
-            raise NotImplementedError(
-                f"The challenge response for '{body_name}' is not implemented yet. Got: {body_name}"
-            )
-
-        return build_ip_cmp_message(
+        cert_request = self.get_challenged_request(request)
+        body_name = cert_request["body"].getName()
+        cert_req = cert_request["body"][body_name][0]["certReq"]
+        cert = build_cert_from_cert_template(
+            cert_template=cert_req["certTemplate"],
+            ca_key=self.ca_key,
+            ca_cert=self.ca_cert,
+            extensions=self.extensions,
+        )
+        del self.challenge[(int(request["body"]["popdecr"][0]), request["header"]["transactionID"].asOctets())]
+        build_message = build_ip_cmp_message if body_name == "ir" else build_cp_cmp_message
+        return build_message(
             request=request,
-            responses=responses,
+            cert=cert,
+            cert_req_id=int(cert_req["certReqId"]),
+            sender_nonce=os.urandom(16),
         )
 
     def handle_challenge(
-- 
2.43.0


From 7ab5870c8e6145e2ccdaa69b59bd6a76887e3551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:43 +0000
Subject: [PATCH 26/49] fix: refuse validity periods that are over or end
 before they start, and encode years from 2050 on

---
 resources/certbuildutils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index e4dd41b..c75d82d 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -1656,7 +1656,13 @@ def default_validity(
             not_after = optional_validity["notAfter"][time_type].asDateTime
         else:
             not_after = not_before + timedelta(days=days)
-        return prepare_validity(not_before, not_after)
+
+        if not_after < not_before or not_after < datetime.now(timezone.utc):
+            raise BadCertTemplate("The requested validity period ends before it starts, or is already over.")
+
+        return prepare_validity(
+            not_before, not_after, before_use_utc=not_before.year < 2050, after_use_utc=not_after.year < 2050
+        )
 
     # otherwise will OpenSSL say: "certificate is not yet valid"
     not_before = datetime.now(timezone.utc) - timedelta(days=1)
-- 
2.43.0


From 15f8152962fa10e95b385a163a885e0962da6082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:43 +0000
Subject: [PATCH 27/49] fix: do not repeat the SubjectKeyIdentifier extension
 of a template

---
 resources/certbuildutils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index c75d82d..35be992 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -1750,7 +1750,8 @@ def build_cert_from_cert_template(  # noqa D417 undocumented-param
     )
 
     if extns.isValue:
-        tbs_certs["extensions"].extend(extns)
+        # The `SubjectKeyIdentifier` extension is already set, the one of the template has the same value.
+        tbs_certs["extensions"].extend([x for x in extns if x["extnID"] != rfc5280.id_ce_subjectKeyIdentifier])
 
     cert = rfc9480.CMPCertificate()
     cert["tbsCertificate"] = tbs_certs
-- 
2.43.0


From ef56d997f1358d984124b6052e755faa3d097453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:43 +0000
Subject: [PATCH 28/49] fix: refuse templates with a serialNumber, which the CA
 assigns

---
 resources/ca_ra_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index abf85e3..310d6db 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1481,6 +1481,9 @@ def validate_cert_template_public_key(
     :raises BadCertTemplate: If the certificate template is not valid.
     :raises BadAlg: If the public key algorithm is not valid.
     """
+    if cert_template["serialNumber"].isValue:
+        raise BadCertTemplate("The `serialNumber` is assigned by the CA and must not be set in the template.")
+
     if compareutils.is_null_dn(cert_template["subject"]):
         if get_extension(cert_template["extensions"], rfc5280.id_ce_subjectAltName) is None:
             raise BadCertTemplate("The `subject` field is not set inside the certificate template.")
-- 
2.43.0


From 8bb4259f693ee8a78e47f2b3cf64af990d11e385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:53 +0000
Subject: [PATCH 29/49] fix: apply the checks of public keys to kur and p10cr,
 and add the CA's extensions to all certificates

---
 resources/ca_ra_utils.py | 53 ++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 18 deletions(-)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 310d6db..89e59ef 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -1465,6 +1465,34 @@ def _validate_pq_hash_stateful_sig_pub_key(
         )
 
 
+def _check_public_key_is_allowed(public_key: Optional[PublicKey], max_key_size: Optional[int] = None) -> None:
+    """Check that a certificate can be issued for the public key.
+
+    :param public_key: The public key to check, or `None` if the CA generates it.
+    :param max_key_size: The maximum key size for RSA, skipped if `None`. Defaults to `None`.
+    :raises BadCertTemplate: If the public key is not allowed.
+    :raises BadAlg: If the public key algorithm is not allowed.
+    """
+    if isinstance(public_key, DHPublicKey):
+        raise BadCertTemplate(
+            "The `publicKey` inside the certificate template was a `DH` key, which is not allowed.",
+            failinfo="badAlg,badCertTemplate",
+        )
+
+    if isinstance(public_key, DSAPublicKey):
+        raise BadAlg(
+            "The `publicKey` inside the certificate template was a `DSA` key, which is not allowed.",
+            failinfo="badAlg,badCertTemplate",
+        )
+
+    if isinstance(public_key, RSAPublicKey):
+        if public_key.key_size < 2048:
+            raise BadCertTemplate("The RSA public key was shorter then 2048 bits")
+
+        if max_key_size is not None and public_key.key_size > max_key_size:
+            raise BadCertTemplate(f"The RSA public key was longer then {max_key_size} bits")
+
+
 @not_keyword
 def validate_cert_template_public_key(
     cert_template: rfc9480.CertTemplate,
@@ -1495,24 +1523,7 @@ def validate_cert_template_public_key(
             "Failed to load the public key from the `CertTemplate`.", failinfo="badCertTemplate,badDataFormat"
         ) from err
 
-    if isinstance(public_key, DHPublicKey):
-        raise BadCertTemplate(
-            "The `publicKey` inside the certificate template was a `DH` key, which is not allowed.",
-            failinfo="badAlg,badCertTemplate",
-        )
-
-    if isinstance(public_key, DSAPublicKey):
-        raise BadAlg(
-            "The `publicKey` inside the certificate template was a `DSA` key, which is not allowed.",
-            failinfo="badAlg,badCertTemplate",
-        )
-
-    if isinstance(public_key, RSAPublicKey):
-        if public_key.key_size < 2048:
-            raise BadCertTemplate("The RSA public key was shorter then 2048 bits")
-
-        if max_key_size is not None and public_key.key_size > max_key_size:
-            raise BadCertTemplate(f"The RSA public key was longer then {max_key_size} bits")
+    _check_public_key_is_allowed(public_key, max_key_size=max_key_size)
 
     if sig_popo_alg_id is not None:
         if public_key is None:
@@ -1869,6 +1880,7 @@ def respond_to_key_agreement_request(  # noqa: D417 Missing argument description
             x448_key=x448_key,
             x25519_key=x25519_key,
             ecc_key=ecc_key,
+            extensions=extensions,
             **kwargs,
         ), None
 
@@ -2000,6 +2012,7 @@ def respond_to_key_encipherment_request(  # noqa: D417 undocumented-params
             x25519_key=x25519_key,
             x448_key=x448_key,
             ecc_key=ecc_key,
+            extensions=extensions,
             **kwargs,
         ), None
 
@@ -2322,6 +2335,8 @@ def build_cp_from_p10cr(  # noqa: D417 Missing argument descriptions in the docs
         raise ValueError("Either `cert` or `ca_key` and `ca_cert` must be provided to build a CA CMP message.")
 
     _validate_subject_field_for_cert_request(request["body"]["p10cr"])
+    spki = request["body"]["p10cr"]["certificationRequestInfo"]["subjectPublicKeyInfo"]
+    _check_public_key_is_allowed(keyutils.load_public_key_from_spki(spki), max_key_size=4096 * 2)
 
     cert = cert or certbuildutils.build_cert_from_csr(
         csr=request["body"]["p10cr"],
@@ -4019,10 +4034,12 @@ def build_kup_from_kur(  # noqa: D417 undocumented-param
             **kwargs,
         )
 
+    validate_cert_template_public_key(cert_req_msg["certReq"]["certTemplate"], max_key_size=4096 * 2)
     cert = certbuildutils.build_cert_from_cert_template(
         cert_template=cert_req_msg["certReq"]["certTemplate"],
         ca_key=ca_key,
         ca_cert=ca_cert,
+        extensions=kwargs.get("extensions"),
     )
 
     if request is not None and set_ca_header_fields:
-- 
2.43.0


From 8d4a692cf66df9d1999950593061ce51536a20b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:11:53 +0000
Subject: [PATCH 30/49] fix: put the extensions a p10cr asks for into the
 certificate

---
 mock_ca/cert_req_handler.py | 2 +-
 resources/certbuildutils.py | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 9c8d505..a1fa082 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -454,7 +454,7 @@ class CertReqHandler:
             extensions=self.extensions,
             sender=self.sender,
             for_mac=for_mac,
-            include_csr_extensions=False,
+            include_csr_extensions=True,
             include_ski=True,
             verify_ra_verified=verify_ra_verified,
         )
diff --git a/resources/certbuildutils.py b/resources/certbuildutils.py
index 35be992..880a3aa 100644
--- a/resources/certbuildutils.py
+++ b/resources/certbuildutils.py
@@ -1934,6 +1934,9 @@ def _process_csr_extensions(
         else:
             ca_pub_key = kwargs["ca_pub_key"]
 
+        if include_ski:
+            out_extensions.append(prepare_ski_extension(key=public_key, critical=kwargs.get("ski_critical", False)))
+
         return check_extensions(
             cert_template=csr,
             ca_cert=ca_cert,
@@ -2441,7 +2444,7 @@ def _verify_authority_key_identifier(
         )
 
     aki = _try_decode_extension_val(  # type: ignore
-        extensions=cert_template["extensions"],
+        extensions=extensions,
         extn_name="aki",
         name="AuthorityKeyIdentifier",
     )
-- 
2.43.0


From 3e6f88b1b8a9e7ca7ef1bb7b5ee97b03063c503e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:34:14 +0000
Subject: [PATCH 31/49] fix: let the mock CA handle one request at a time,
 because the threads of the server share its state

---
 mock_ca/ca_handler.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/mock_ca/ca_handler.py b/mock_ca/ca_handler.py
index 339afba..6d87234 100644
--- a/mock_ca/ca_handler.py
+++ b/mock_ca/ca_handler.py
@@ -5,9 +5,11 @@
 """Contains the CA Handler for the Mock CA."""
 
 import argparse
+import functools
 import logging
 import os
 import sys
+import threading
 from typing import Any, List, Optional, Sequence, Tuple, Union
 
 from cryptography.exceptions import InvalidSignature
@@ -196,6 +198,17 @@ def _contains_challenge(request_msg: PKIMessageTMP) -> bool:
     return False
 
 
+def _one_at_a_time(func):
+    """Let only one thread at a time run the method, because all requests share the state of the CA."""
+
+    @functools.wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with self.lock:
+            return func(self, *args, **kwargs)
+
+    return wrapper
+
+
 class CAHandler:
     """A simple class to handle the CA operations."""
 
@@ -337,6 +350,7 @@ class CAHandler:
         self.trusted_ras_dir = trusted_ras_dir
         self.sender = "CN=Mock CA"
         self.ca_alt_key = ca_alt_key
+        self.lock = threading.RLock()
         self.state = mock_ca_state or MockCAState()
         self.pre_shared_secret = pre_shared_secret
         self.cert_chain = [self.ca_cert, self.comp_cert, self.sun_hybrid_cert, cert1]
@@ -711,6 +725,7 @@ class CAHandler:
             return self.build_error_from_exception(e, pki_message)
         return self.sign_response(response=response, request_msg=pki_message)
 
+    @_one_at_a_time
     def process_normal_request(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the normal request.
 
@@ -1061,6 +1076,7 @@ class CAHandler:
         )
         return response
 
+    @_one_at_a_time
     def process_chameleon(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Chameleon message.
 
@@ -1149,6 +1165,7 @@ class CAHandler:
         else:
             self.state.add_certs(certs=certs)
 
+    @_one_at_a_time
     def process_sun_hybrid(
         self,
         pki_message: PKIMessageTMP,
@@ -1218,6 +1235,7 @@ class CAHandler:
 
         return response
 
+    @_one_at_a_time
     def process_multi_auth(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Multi-Auth message.
 
@@ -1248,6 +1266,7 @@ class CAHandler:
             logging.info("An error occurred: %s", str(e.message), exc_info=True)
             return self.build_error_from_exception(e, request_msg=pki_message)
 
+    @_one_at_a_time
     def process_cert_discovery(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Cert Discovery request message.
 
@@ -1353,6 +1372,7 @@ class CAHandler:
         else:
             raise NotImplementedError("The related certificate is not issued by the Mock-CA.")
 
+    @_one_at_a_time
     def process_related_cert(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Related Cert request message.
 
@@ -1423,6 +1443,7 @@ class CAHandler:
 
         return self.sign_response(response=response, request_msg=pki_message)
 
+    @_one_at_a_time
     def process_catalyst_sig(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Catalyst Sig request message.
 
@@ -1454,6 +1475,7 @@ class CAHandler:
             logging.info("An error occurred: %s", str(e.message))
             return self.build_error_from_exception(e, request_msg=pki_message)
 
+    @_one_at_a_time
     def process_catalyst_issuing(self, pki_message: PKIMessageTMP) -> PKIMessageTMP:
         """Process the Catalyst request message.
 
@@ -1484,6 +1506,7 @@ class CAHandler:
 
         return self.sign_response(response=response, request_msg=pki_message)
 
+    @_one_at_a_time
     def process_ocsp_request(self, data: bytes) -> bytes:
         """Process the OCSP request and return the response."""
         try:
@@ -1499,6 +1522,7 @@ class CAHandler:
 
         return response.public_bytes(encoding=Encoding.DER)
 
+    @_one_at_a_time
     def get_current_crl(self) -> bytes:
         """Process the CRL request and return the response."""
         response = self.state.certificate_db.get_current_crl(
-- 
2.43.0


From c10787a03da0147b2fb3a37a27d40bc892767e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 14:59:15 +0000
Subject: [PATCH 32/49] fix: check the template inside the regInfo field for
 keys that are certified already

---
 mock_ca/cert_req_handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index a1fa082..fe288d7 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -51,6 +51,7 @@ from resources.cmputils import (
     get_cmp_message_type,
     get_pkistatusinfo,
     patch_generalinfo,
+    validate_reg_info_field,
 )
 from resources.compareutils import compare_pyasn1_names
 from resources.convertutils import ensure_is_verify_key
@@ -248,6 +249,11 @@ class CertReqHandler:
             requested_keys = []
             for entry in pki_message["body"][body_name]:
                 cert_template = entry["certReq"]["certTemplate"]
+                if body_name in ["ir", "cr"]:
+                    alt_cert_req, _ = validate_reg_info_field(cert_reg_msg=entry)
+                    if alt_cert_req is not None:
+                        # The certificate is issued for the template inside the `regInfo` field.
+                        cert_template = alt_cert_req["certTemplate"]
                 try:
                     if self.is_certificate_in_list(cert_template, self.state.issued_certs):
                         _name = get_openssl_name_notation(cert_template["subject"])
-- 
2.43.0


From fb27a40b0275e43fac3dd942d1e96455f93abbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:00:21 +0000
Subject: [PATCH 33/49] fix: generate keys centrally for cr, too, and put the
 CA's extensions into the certificates

---
 mock_ca/cert_req_handler.py | 5 +----
 resources/ca_ra_utils.py    | 1 +
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index fe288d7..4e5ffb1 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -423,13 +423,10 @@ class CertReqHandler:
 
         response, certs = build_cp_cmp_message(
             request=pki_message,
-            ca_cert=self.ca_cert,
-            ca_key=self.ca_key,
             implicit_confirm=False,
-            extensions=self.extensions,
-            sender=self.sender,
             for_mac=for_mac,
             verify_ra_verified=verify_ra_verified,
+            **{name: value for name, value in self.issuing_params.items() if name != "extra_issuing_data"},
         )
 
         return self.process_after_request(
diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 89e59ef..4a5979b 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2101,6 +2101,7 @@ def respond_to_cert_req_msg(  # noqa: D417 Missing argument descriptions in the
             cert_template=cert_req_msg["certReq"]["certTemplate"],
             ca_cert=ca_cert,
             ca_key=ca_key,
+            extensions=extensions,
             **kwargs,
         )
         return cert, None, private_key
-- 
2.43.0


From 18ca1980b5f75cf305094d5d8a0d864e545bd931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:11:25 +0000
Subject: [PATCH 34/49] fix: send the confirmation of a version 3 exchange as
 version 3

---
 resources/cmputils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/cmputils.py b/resources/cmputils.py
index 13fcb42..cc2fab9 100644
--- a/resources/cmputils.py
+++ b/resources/cmputils.py
@@ -3572,7 +3572,7 @@ def build_cert_conf_from_resp(  # noqa D417 undocumented-param
         recip_kid=params.get("recip_kid"),
         implicit_confirm=params.get("implicit_confirm", False),
         sender_kid=params.get("sender_kid"),
-        pvno=params.get("pvno"),
+        pvno=pvno,
         for_mac=params.get("for_mac", False),
     )
     pki_message["body"] = pki_body
-- 
2.43.0


From 9ffafd2d4eb82c692c376de4e8ec64fec2594c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:21:57 +0000
Subject: [PATCH 35/49] fix: generate keys for requests of version 3 only, for
 ir and cr, too

---
 resources/ca_ra_utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/resources/ca_ra_utils.py b/resources/ca_ra_utils.py
index 4a5979b..c454f54 100644
--- a/resources/ca_ra_utils.py
+++ b/resources/ca_ra_utils.py
@@ -2097,6 +2097,10 @@ def respond_to_cert_req_msg(  # noqa: D417 Missing argument descriptions in the
             raise BadPOP("The public key value is set, but the POPO is missing in the certificate request.")
 
     if not cert_req_msg["popo"].isValue:
+        request = kwargs.get("request")
+        if request is not None and int(request["header"]["pvno"]) != 3:
+            raise UnsupportedVersion("The KGA request only supports version 3 (EnvelopedData).")
+
         cert, private_key = prepare_cert_and_private_key_for_kga(
             cert_template=cert_req_msg["certReq"]["certTemplate"],
             ca_cert=ca_cert,
-- 
2.43.0


From 154a17acb9e0d9d8842d426bd42ee205a055d060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:20:05 +0000
Subject: [PATCH 36/49] fix: keep the registration token usable when the
 request naming it is refused

---
 mock_ca/cert_req_handler.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/mock_ca/cert_req_handler.py b/mock_ca/cert_req_handler.py
index 4e5ffb1..f2fd593 100644
--- a/mock_ca/cert_req_handler.py
+++ b/mock_ca/cert_req_handler.py
@@ -375,19 +375,25 @@ class CertReqHandler:
         logging.debug("Verify RA verified: %s", verify_ra_verified)
 
         for_mac = self._get_for_mac(request=pki_message)
-        response, certs = build_ip_cmp_message(
-            request=pki_message,
-            implicit_confirm=False,
-            verify_ra_verified=verify_ra_verified,
-            for_mac=for_mac,
-            **self.issuing_params,
-        )
+        found_reg_token = self.extra_issuing_data.found_regToken
+        try:
+            response, certs = build_ip_cmp_message(
+                request=pki_message,
+                implicit_confirm=False,
+                verify_ra_verified=verify_ra_verified,
+                for_mac=for_mac,
+                **self.issuing_params,
+            )
 
-        return self.process_after_request(
-            request=pki_message,
-            response=response,
-            certs=certs,
-        )
+            return self.process_after_request(
+                request=pki_message,
+                response=response,
+                certs=certs,
+            )
+        except Exception:
+            # A refused request does not use up the registration token.
+            self.extra_issuing_data.found_regToken = found_reg_token
+            raise
 
     def check_signer_is_a_issued_cert(self, pki_message: PKIMessageTMP) -> None:
         """Check if the signer of the CR message known to the CA, by being an issued certificate."""
-- 
2.43.0


From a9dc6fbd65cfb83da148fd7f8d47cd6d7a8623e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:47 +0000
Subject: [PATCH 37/49] fix: verify the signature of a post-quantum KGA without
 hashing first, unless its algorithm says so

---
 resources/ca_kga_logic.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index 1f496ed..f3fec8c 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1166,6 +1166,12 @@ def _validate_signature_and_algorithm_in_signed_data(
 
     logging.info("Hash algorithm used for signing the `encapContentInfo`: %s", hash_alg)
     logging.info("Signature of `encapContentInfo`: %s", signature.hex())
+
+    sig_oid = data["signatureAlgorithm"]["algorithm"]
+    if sig_oid in PQ_SIG_OID_2_NAME:
+        # The content is hashed before it is signed, only if the algorithm is a pre-hash version.
+        hash_alg = get_hash_from_oid(sig_oid, only_hash=True)
+
     certutils.verify_signature_with_cert(
         signature=signature, asn1cert=kga_certificate, data=encap_content_info_data, hash_alg=hash_alg
     )
-- 
2.43.0


From 2a8c5bafdec423c525076cdf410555ea4aa98e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:44:47 +0000
Subject: [PATCH 38/49] fix: return the message digest of the signed attributes
 as bytes

---
 resources/ca_kga_logic.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/resources/ca_kga_logic.py b/resources/ca_kga_logic.py
index f3fec8c..d7a9ab4 100644
--- a/resources/ca_kga_logic.py
+++ b/resources/ca_kga_logic.py
@@ -1473,7 +1473,8 @@ def validate_signed_attributes(sign_attr: rfc5652.SignedAttributes, expected_dig
                 raise ValueError("The `id-messageDigest` `attrValues` must contain exactly one value!")
 
             val = attr["attrValues"][index]
-            message_digest_value, _ = decoder.decode(val, rfc5652.MessageDigest())
+            message_digest, _ = decoder.decode(val, rfc5652.MessageDigest())
+            message_digest_value = message_digest.asOctets()
 
     if message_digest_value is None:
         raise ValueError("The `id-messageDigest` attribute was not found in the `SignedAttributes` structure!")
-- 
2.43.0


From c1649c83f244809996005a87c01887d35ce674a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 39/49] fix: do not replace the certificate of an answer while
 validating the answer

---
 resources/checkutils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index f6e4541..17d413a 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -181,7 +181,8 @@ def validate_certified_key_pair_structure(  # noqa D417 undocumented-param
             else:
                 logging.info("Supposed to use the `EnvelopedData` data structure, for `privateKey`")
 
-    if cert_key_pair["certOrEncCert"]["encryptedCert"].isValue:
+    # Reading a component of a `CHOICE`, which is not the chosen one, would replace the certificate.
+    if cert_key_pair["certOrEncCert"].getName() == "encryptedCert":
         if cert_key_pair["certOrEncCert"]["encryptedCert"].getName() == "envelopedData":
             if version != 3:
                 raise ValueError(
@@ -1807,7 +1808,10 @@ def validate_ca_message_body(  # noqa D417 undocumented-param
             raise ValueError(f"The status was: {status}, but failinfo was set to: {names}")
 
         certified_key_pair: rfc9480.CertifiedKeyPair = cert_response["certifiedKeyPair"]
-        if not certified_key_pair["certOrEncCert"]["certificate"].isValue:
+        if (
+            not certified_key_pair["certOrEncCert"].isValue
+            or certified_key_pair["certOrEncCert"].getName() != "certificate"
+        ):
             raise ValueError("certificate field has no Value!")
 
         logging.info(certified_key_pair.prettyPrint())
-- 
2.43.0


From 0b83d980a238a93bf6215ffa4e5ac6530399a2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 40/49] fix: check the time of an answer that is dated before
 the request, too

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index 17d413a..f4b0bfa 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1422,7 +1422,7 @@ def check_message_time_field(
             _check_message_time_for_request(time_obj, allowed_interval)
             return
 
-        if time_diff > allowed_interval:
+        if abs(time_diff) > allowed_interval:
             raise BadTime(f"Time difference exceeds allowed {allowed_interval} seconds: {time_diff} seconds")
 
         logging.info("The time difference was: %.2f seconds, which is within the allowed interval.", time_diff)
-- 
2.43.0


From 4acef6c1e54a96ad99eff4f1b9e3d2d378b6e896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 41/49] fix: accept a revocation that was refused with the
 status rejection

---
 resources/checkutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/resources/checkutils.py b/resources/checkutils.py
index f4b0bfa..b0f2fb4 100644
--- a/resources/checkutils.py
+++ b/resources/checkutils.py
@@ -1690,7 +1690,7 @@ def check_rp_cmp_message_body(  # noqa D417 undocumented-param
             raise ValueError("The `failInfo` MUST be absent if the `status` is accepted")
 
         return
-    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejected")
+    is_correct = asn1utils.asn1_compare_named_values(pki_status_info["status"], "rejection")
     if is_correct:
         return
 
-- 
2.43.0


From 2e3f0b95f3f0ab8b836b6c6f9dd020dec4d3b83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:30 +0000
Subject: [PATCH 42/49] fix: compare the MAC algorithm of the confirmation with
 the one of the request

---
 resources/protectionutils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/resources/protectionutils.py b/resources/protectionutils.py
index 854611c..6b467cc 100644
--- a/resources/protectionutils.py
+++ b/resources/protectionutils.py
@@ -1644,7 +1644,9 @@ def mac_protection_algorithms_must_match(  # noqa D417 undocumented-param
                 raise ValueError("Protection algorithm mismatch between PKI Confirmation and CA response.")
         else:
             # For convenience, use the request, which must be equal.
-            _compare_mac_params(request_algo, response_algo, same_salt=same_salt, allow_null=allow_null)
+            if request_algo["algorithm"] != pki_conf_id["algorithm"]:
+                raise ValueError("Protection algorithm mismatch between PKI Confirmation and CA response.")
+            _compare_mac_params(request_algo, pki_conf_id, same_salt=same_salt, allow_null=allow_null)
 
 
 @not_keyword
-- 
2.43.0


From b2d6d53cdabc7b2e381ef40fcfa1c7f24071535a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:31 +0000
Subject: [PATCH 43/49] fix: check the length of FrodoKEM private keys, and
 read a seed with its key

---
 pq_logic/keys/kem_keys.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pq_logic/keys/kem_keys.py b/pq_logic/keys/kem_keys.py
index 7edd610..05bf3cc 100644
--- a/pq_logic/keys/kem_keys.py
+++ b/pq_logic/keys/kem_keys.py
@@ -643,6 +643,15 @@ class FrodoKEMPrivateKey(PQKEMPrivateKey):
         if cls._seed_size(name) == len(data):
             # If the data is a seed, create a key from it
             return cls.from_seed(alg_name=name, seed=data)
+        raw_size = FrodoKEM(cls._check_name(name)[1]).len_sk_bytes
+        if len(data) == cls._seed_size(name) + raw_size:
+            # If the data is the seed and the raw key, they have to fit together.
+            key = cls.from_seed(alg_name=name, seed=data[: cls._seed_size(name)])
+            if key.private_bytes_raw() != data[cls._seed_size(name) :]:
+                raise InvalidKeyData(f"The seed does not match the private key for {name}.")
+            return key
+        if len(data) != raw_size:
+            raise InvalidKeyData(f"Invalid private key size for {name}. Expected {raw_size}, got {len(data)}")
         if oqs is not None:
             return super().from_private_bytes(data, name)  # type: ignore
         return cls(alg_name=name, private_bytes=data)  # type: ignore
-- 
2.43.0


From 6f67f0fd3b00e03ef67391d3d2e69208f5112ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:11 +0000
Subject: [PATCH 44/49] fix: refuse HSS private keys that are cut off

---
 pq_logic/keys/stateful_sig_keys.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pq_logic/keys/stateful_sig_keys.py b/pq_logic/keys/stateful_sig_keys.py
index 816efed..017b548 100644
--- a/pq_logic/keys/stateful_sig_keys.py
+++ b/pq_logic/keys/stateful_sig_keys.py
@@ -1137,6 +1137,8 @@ class HSSPrivateKey(PQHashStatefulSigPrivateKey):
                 self._hss = pyhsslms.HssPrivateKey.deserialize(self._private_key_bytes)
             except ValueError as exc:  # pragma: no cover - library validation
                 raise InvalidKeyData("Failed to parse HSS private key bytes.") from exc
+            if self._hss.serialize() != self._private_key_bytes:
+                raise InvalidKeyData("The HSS private key bytes are not complete.")
             self._levels = self._hss.levels
             if self._levels != target_levels:
                 raise InvalidKeyData(
-- 
2.43.0


From 8a3922d0607d7c36dace292eb2ddaabe42c3b3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:06 +0000
Subject: [PATCH 45/49] fix: compare the alternative key fetched for a
 Sun-Hybrid certificate with its hash

---
 pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py b/pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py
index 4674ad2..f8b2a0f 100644
--- a/pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py
+++ b/pq_logic/hybrid_sig/sun_lamps_hybrid_scheme_00.py
@@ -1214,4 +1214,12 @@ def get_sun_hybrid_alt_pub_key(  # noqa: D417 Missing argument descriptions in t
     if rest != b"":
         raise ValueError("Decoding of the public key had trailing data.")
 
-    return keyutils.load_public_key_from_spki(obj)
+    hash_alg = get_hash_from_oid(decoded_ext["hashAlg"]["algorithm"])
+    if not hash_alg:
+        raise ValueError("The hash algorithm is not inside the `AltSubPubKeyExt` structure")
+
+    public_key = keyutils.load_public_key_from_spki(obj)
+    if _hash_public_key(public_key, hash_alg=hash_alg) != decoded_ext["plainOrHash"].asOctets():
+        raise ValueError("The fetched public key does not match the hash inside the `AltSubPubKeyExt` structure.")
+
+    return public_key
-- 
2.43.0


From 58bbe350fb160a53952c882f9380d0bc2250bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:07 +0000
Subject: [PATCH 46/49] fix: refuse an alternative key in the message other
 than the one of the certificate

---
 pq_logic/pq_verify_logic.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pq_logic/pq_verify_logic.py b/pq_logic/pq_verify_logic.py
index 8deb4ec..aec752c 100644
--- a/pq_logic/pq_verify_logic.py
+++ b/pq_logic/pq_verify_logic.py
@@ -591,10 +591,12 @@ def verify_hybrid_pkimessage_protection(  # noqa D417 undocumented-param
         if alt_sig is None:
             raise BadMessageCheck("The `PKIMessage` does not contain an alternative signature.")
 
+        other_key = may_extract_alt_key_from_cert(cert=cert, other_certs=other_certs)
         if public_key_info is not None:
-            other_key = keyutils.load_public_key_from_spki(public_key_info)
-        else:
-            other_key = may_extract_alt_key_from_cert(cert=cert, other_certs=other_certs)
+            msg_key = keyutils.load_public_key_from_spki(public_key_info)
+            if other_key is not None and other_key != msg_key:
+                raise BadMessageCheck("The alternative key in the message is not the one of the certificate.")
+            other_key = msg_key
 
         pki_message["header"]["generalInfo"] = other_fields
         data = protectionutils.prepare_protected_part(pki_message)
-- 
2.43.0


From 6f716db37e60f5a7762dd1ca17880d2e1270e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:15 +0000
Subject: [PATCH 47/49] fix: keep the parameters of the signature algorithm in
 the delta descriptor

---
 pq_logic/hybrid_sig/chameleon_logic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pq_logic/hybrid_sig/chameleon_logic.py b/pq_logic/hybrid_sig/chameleon_logic.py
index 9bb7685..0d853e1 100644
--- a/pq_logic/hybrid_sig/chameleon_logic.py
+++ b/pq_logic/hybrid_sig/chameleon_logic.py
@@ -114,6 +114,8 @@ def prepare_dcd_extension_from_delta(delta_cert: rfc9480.CMPCertificate, base_ce
 
     if not same_alg_id:
         dcd["signature"]["algorithm"] = delta_cert["tbsCertificate"]["signature"]["algorithm"]
+        if delta_cert["tbsCertificate"]["signature"]["parameters"].isValue:
+            dcd["signature"]["parameters"] = delta_cert["tbsCertificate"]["signature"]["parameters"]
 
     dcd = _prepare_issuer_and_subject(
         dcd=dcd,
-- 
2.43.0


From 3f4233b606f9db7358d627adcf45627b5c03c559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:45 +0000
Subject: [PATCH 48/49] fix: give the delta certificate the base's extensions
 if it requests none

---
 pq_logic/hybrid_sig/chameleon_logic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pq_logic/hybrid_sig/chameleon_logic.py b/pq_logic/hybrid_sig/chameleon_logic.py
index 0d853e1..b7ccaef 100644
--- a/pq_logic/hybrid_sig/chameleon_logic.py
+++ b/pq_logic/hybrid_sig/chameleon_logic.py
@@ -884,6 +884,10 @@ def process_extensions_for_chameleon(
         return base_extensions, delta_extensions
 
     if csr_extensions is not None and not delta_req_value["extensions"].isValue:
+        for extn in csr_extensions:
+            if extn["extnID"] != rfc5280.id_ce_subjectKeyIdentifier:
+                delta_extensions.append(extn)
+
         if include_ski:
             public_key = keyutils.load_public_key_from_spki(delta_req_value["subjectPKInfo"])
             delta_ski = certbuildutils.prepare_ski_extension(key=public_key, critical=ski_critical)
-- 
2.43.0


From ff3ddf16e1fc003d525b19687045743acf23b050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:06 +0000
Subject: [PATCH 49/49] fix: compare post-quantum private keys by what they
 are, not only by their type

---
 pq_logic/keys/abstract_wrapper_keys.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pq_logic/keys/abstract_wrapper_keys.py b/pq_logic/keys/abstract_wrapper_keys.py
index 71c5436..e2017bb 100644
--- a/pq_logic/keys/abstract_wrapper_keys.py
+++ b/pq_logic/keys/abstract_wrapper_keys.py
@@ -388,6 +388,12 @@ class PQPrivateKey(WrapperPrivateKey, ABC):
         self._seed = seed
         self._initialize_key()
 
+    def __eq__(self, other) -> bool:
+        """Compare two private keys."""
+        if type(self) is not type(other):
+            return False
+        return self.name == other.name and self._private_key_bytes == other._private_key_bytes
+
     @property
     def name(self) -> str:
         """Get the name of the key."""
-- 
2.43.0

