From 48ffda2b5b18302d1e20964339f31ad5073d1444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 1/9] fix: pass the attestation object to attest during
 registration

---
 webauthn_rp/backends.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..25867d2 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -201,9 +201,8 @@ class CredentialsBackend:
             assert attestation.auth_data.attested_credential_data is not None
 
             att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+                attestation.att_stmt, attestation, raw_att_obj['authData'],
+                client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From 46e6ce0911ed91c8e1553c199660be93c79a1487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 2/9] fix: encode the COSE base_IV exactly when it is present

---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From 957fe2d093c78ffbb99422d809111e87ef562d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 3/9] fix: compare origins by host and port, and refuse
 malformed ports

---
 webauthn_rp/parsers.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..ac643d3 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,12 +66,17 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        explicit_port = url.port
+    except ValueError:
+        raise OriginError('Invalid origin, malformed host or port')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
 
-    if not url.netloc:
+    if not url.hostname:
         raise OriginError('Invalid origin, must provide a hostname')
 
     if url.scheme not in {'http', 'https'}:
@@ -80,10 +85,11 @@ def parse_origin(origin: str) -> Origin:
 
     scheme = url.scheme
     hostname = url.netloc
-    if url.port is None:
+    if explicit_port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
     else:
-        port = url.port
+        hostname = hostname.rpartition(':')[0]
+        port = explicit_port
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From d8bec3de7126e55a372f99c5eff04445a7957283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 4/9] fix: report every undecodable CBOR or JSON input as a
 DecodingError

---
 webauthn_rp/parsers.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index ac643d3..0d76d73 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -725,7 +725,7 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     try:
         client_data_text = client_data_JSON.decode('utf-8')
         client_data = json.loads(client_data_text)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
     if type(client_data) is not dict:
@@ -795,7 +795,7 @@ def parse_cose_key(
     if type(credential_public_key) is bytes:
         try:
             credential_public_key = cbor2.loads(credential_public_key)
-        except cbor2.CBORDecodeError:
+        except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
         if type(credential_public_key) is not dict:
@@ -867,7 +867,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
 
             try:
                 credential_public_key = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError(
                     'Could not decode the credential public key CBOR')
 
@@ -891,7 +891,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
         try:
             try:
                 extensions = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError('Could not decode the extensions CBOR')
 
             if type(extensions) is not dict:
@@ -934,7 +934,7 @@ def parse_attestation_object(
     """
     try:
         attestation_object_data = cbor2.loads(attestation_object)
-    except cbor2.CBORDecodeError:
+    except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
     if type(attestation_object_data) is not dict:
-- 
2.43.0


From 1cba642d4216e73ed3a8b16961a0a23d96b17892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 5/9] fix: report an unloadable Android key certificate as an
 AttestationError

---
 webauthn_rp/attesters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..517a684 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -151,8 +151,13 @@ def attest_android_key(
     if len(att_stmt.x5c) == 0:
         raise AttestationError('Must have at least 1 X509 certificate')
 
-    credential_certificate = cryptography.x509.load_der_x509_certificate(
-        att_stmt.x5c[0], default_backend())
+    try:
+        credential_certificate = cryptography.x509.load_der_x509_certificate(
+            att_stmt.x5c[0], default_backend())
+    except ValueError:
+        raise AttestationError(
+            'Android key attestation failed: unable to load X509 certificate')
+
     cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
-- 
2.43.0


From 91079f3d32391eb3d65ac151e1459b8846c3521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:53 +0000
Subject: [PATCH 6/9] fix: refuse registrations without attested credential
 data under -O too

---
 webauthn_rp/backends.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 25867d2..c8aa458 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -5,9 +5,9 @@ from webauthn_rp.attesters import attest
 from webauthn_rp.errors import (
     ChallengeError, ClientDataTypeError, CredentialDataError,
     CredentialNotAllowedError, DecodingError, ExtensionError, InternalError,
-    OriginError, RegistrationError, RPIDError, RPIDHashError, RPNotFoundError,
-    SignatureCountError, TokenBindingError, UserHandleError, UserIDError,
-    UserPresenceError, UserVerificationError, WebAuthnRPError)
+    OriginError, ParserError, RegistrationError, RPIDError, RPIDHashError,
+    RPNotFoundError, SignatureCountError, TokenBindingError, UserHandleError,
+    UserIDError, UserPresenceError, UserVerificationError, WebAuthnRPError)
 from webauthn_rp.parsers import (parse_attestation_object,
                                  parse_authenticator_data, parse_client_data,
                                  parse_origin)
@@ -198,7 +198,8 @@ class CredentialsBackend:
                             e.value))
 
             assert attestation.auth_data is not None
-            assert attestation.auth_data.attested_credential_data is not None
+            if attestation.auth_data.attested_credential_data is None:
+                raise ParserError('Attested credential data must be present')
 
             att_type, trusted_path = attest(
                 attestation.att_stmt, attestation, raw_att_obj['authData'],
-- 
2.43.0


From 819817f2efb43a048c55e3d2aff1f984d8e93445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 7/9] fix: refuse FIDO U2F attestation of credential keys
 outside P-256

---
 webauthn_rp/attesters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 517a684..902d883 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -107,6 +107,11 @@ def attest_fido_u2f(
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
     assert credential_public_key is not None
+    if not isinstance(credential_public_key, EC2CredentialPublicKey) or (
+            credential_public_key.crv.name != 'P_256'):
+        raise AttestationError(
+            'FIDO U2F attestation failed: credential key must use curve P-256')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0


From ee4d826dfe05f46b565f6582ace95246ddbe504d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:42 +0000
Subject: [PATCH 8/9] fix: report an unloadable certificate key as an
 AttestationError

---
 webauthn_rp/attesters.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 902d883..72f018f 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -89,7 +89,12 @@ def attest_fido_u2f(
         raise AttestationError(
             'FIDO U2F attestation failed: unable to load X509 certificate')
 
-    att_cert_x509_pk = att_cert_x509.public_key()
+    try:
+        att_cert_x509_pk = att_cert_x509.public_key()
+    except Exception:
+        raise AttestationError(
+            'FIDO U2F attestation failed: unable to load certificate key')
+
     if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):
         raise AttestationError(
             'FIDO U2F attestation failed: must use an Elliptic Curve Public Key'
@@ -163,7 +168,12 @@ def attest_android_key(
         raise AttestationError(
             'Android key attestation failed: unable to load X509 certificate')
 
-    cred_cert_pk = credential_certificate.public_key()
+    try:
+        cred_cert_pk = credential_certificate.public_key()
+    except Exception:
+        raise AttestationError(
+            'Android key attestation failed: unable to load certificate key')
+
     if not isinstance(
             cred_cert_pk,
         (EllipticCurvePublicKey, Ed25519PublicKey, Ed448PublicKey)):
-- 
2.43.0


From e63c13f38c3ce07d0e08e93d996a9dcb5e46c9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:16 +0000
Subject: [PATCH 9/9] fix: refuse credential public keys with labels that are
 neither integers nor text

A CBOR map key that is true or 1.0 compares equal to the label 1, so a map without
a key type (or another member) was read as if it had one.
---
 webauthn_rp/parsers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 0d76d73..25a0103 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -254,6 +254,12 @@ def _parse_credential_public_key_key_ops(
 
 
 def _parse_credential_public_key_kwargs(credential_public_key: Dict) -> dict:
+    for label in credential_public_key:
+        if type(label) not in (int, str):
+            raise ParserError(
+                'Credential public key labels must be integers or text '
+                'strings not {}'.format(str(type(label))))
+
     kty = _parse_credential_public_key_kty(credential_public_key)
     kid = _parse_dictionary_field(2, bytes, credential_public_key, False)
     alg = _parse_credential_public_key_alg(credential_public_key)
-- 
2.43.0

