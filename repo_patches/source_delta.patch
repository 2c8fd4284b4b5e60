From 87e3021bddabae3efc42dc3fab18bf04fd751c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:03 +0000
Subject: [PATCH 01/12] fix: pass the attestation object, not its key, to the
 attestation verifier

---
 webauthn_rp/backends.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 4f684a5..20d89d6 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -200,10 +200,9 @@ class CredentialsBackend:
             assert attestation.auth_data is not None
             assert attestation.auth_data.attested_credential_data is not None
 
-            att_type, trusted_path = attest(
-                attestation.att_stmt, attestation.auth_data.
-                attested_credential_data.credential_public_key,
-                raw_att_obj['authData'], client_data_JSON_hash)
+            att_type, trusted_path = attest(attestation.att_stmt, attestation,
+                                            raw_att_obj['authData'],
+                                            client_data_JSON_hash)
 
             try:
                 response = self.registrar.register_credential_attestation(
-- 
2.43.0


From f0665cab305aa4c84068df3c253fcf0810c7dc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:07 +0000
Subject: [PATCH 02/12] fix: include the base IV in COSE keys exactly when it
 is present

---
 webauthn_rp/converters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/converters.py b/webauthn_rp/converters.py
index 2d12b1e..6eb41eb 100644
--- a/webauthn_rp/converters.py
+++ b/webauthn_rp/converters.py
@@ -170,7 +170,7 @@ def _build_base_cose_dictionary(
     d[3] = credential_public_key.alg.value
     if credential_public_key.key_ops is not None:
         d[4] = [x.value for x in credential_public_key.key_ops]
-    if credential_public_key.key_ops is not None:
+    if credential_public_key.base_IV is not None:
         d[5] = credential_public_key.base_IV
     return d
 
-- 
2.43.0


From 7001f13bf3a63517b97332966067ac90c4d7f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:11 +0000
Subject: [PATCH 03/12] fix: accept authenticators without a signature counter
 (0 reported, 0 stored)

---
 webauthn_rp/backends.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/webauthn_rp/backends.py b/webauthn_rp/backends.py
index 20d89d6..4a9b78c 100644
--- a/webauthn_rp/backends.py
+++ b/webauthn_rp/backends.py
@@ -428,7 +428,8 @@ class CredentialsBackend:
                    verification_data)
 
             registered_sign_count = credential_data.signature_count
-            if registered_sign_count is not None:
+            if registered_sign_count is not None and (
+                    auth_data.sign_count != 0 or registered_sign_count != 0):
                 if auth_data.sign_count <= registered_sign_count:
                     if not ignore_clone_error:
                         raise SignatureCountError(
-- 
2.43.0


From 436956adee52997aa05c04fe3649c158ff354222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:15 +0000
Subject: [PATCH 04/12] fix: report malformed origins as OriginError

---
 webauthn_rp/parsers.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d902be6..d7d64fe 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -66,7 +66,12 @@ def parse_origin(origin: str) -> Origin:
     if '://' not in origin:
         raise OriginError('Invalid origin, missing scheme')
 
-    url = urlparse(origin)
+    try:
+        url = urlparse(origin)
+        url_port = url.port
+    except ValueError:
+        raise OriginError('Invalid origin, malformed URL')
+
     if url.path or url.params or url.query or url.fragment:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
@@ -80,10 +85,10 @@ def parse_origin(origin: str) -> Origin:
 
     scheme = url.scheme
     hostname = url.netloc
-    if url.port is None:
+    if url_port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
     else:
-        port = url.port
+        port = url_port
 
     return Origin(
         scheme=scheme,
-- 
2.43.0


From 12430cce68529cb7d74890ded858df06f7ed9be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:20 +0000
Subject: [PATCH 05/12] fix: compare origins by host and port, ignoring how the
 port is written

---
 webauthn_rp/parsers.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index d7d64fe..b7646ea 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -76,7 +76,10 @@ def parse_origin(origin: str) -> Origin:
         raise OriginError('Invalid origin, cannot have path, params, query, '
                           'or fragment present')
 
-    if not url.netloc:
+    if '@' in url.netloc:
+        raise OriginError('Invalid origin, cannot have user information')
+
+    if not url.hostname:
         raise OriginError('Invalid origin, must provide a hostname')
 
     if url.scheme not in {'http', 'https'}:
@@ -84,7 +87,7 @@ def parse_origin(origin: str) -> Origin:
             url.scheme))
 
     scheme = url.scheme
-    hostname = url.netloc
+    hostname = url.hostname
     if url_port is None:
         port = _SCHEME_DEFAULT_PORT_MAPPING[scheme]
     else:
-- 
2.43.0


From a63d6373a6b813b18c41da9a3c9073c7c8f7be2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:24 +0000
Subject: [PATCH 06/12] fix: report every undecodable client data JSON as
 DecodingError

---
 webauthn_rp/parsers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index b7646ea..1be4746 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -727,7 +727,7 @@ def parse_client_data(client_data_JSON: bytes) -> CollectedClientData:
     try:
         client_data_text = client_data_JSON.decode('utf-8')
         client_data = json.loads(client_data_text)
-    except (UnicodeDecodeError, json.JSONDecodeError):
+    except (ValueError, RecursionError):
         raise DecodingError('Could not decode the client data JSON')
 
     if type(client_data) is not dict:
-- 
2.43.0


From f2e95a9786282bc79f7cadd320676189ab1518de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 07/12] fix: report every CBOR decoding failure as
 DecodingError

---
 webauthn_rp/parsers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index 1be4746..dc80c5e 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -797,7 +797,7 @@ def parse_cose_key(
     if type(credential_public_key) is bytes:
         try:
             credential_public_key = cbor2.loads(credential_public_key)
-        except cbor2.CBORDecodeError:
+        except Exception:
             raise DecodingError('Could not decode credential public key CBOR')
 
         if type(credential_public_key) is not dict:
@@ -869,7 +869,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
 
             try:
                 credential_public_key = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError(
                     'Could not decode the credential public key CBOR')
 
@@ -893,7 +893,7 @@ def parse_authenticator_data(auth_data: bytes) -> AuthenticatorData:
         try:
             try:
                 extensions = cbor2.load(remaining_bytes_io)
-            except cbor2.CBORDecodeError:
+            except Exception:
                 raise DecodingError('Could not decode the extensions CBOR')
 
             if type(extensions) is not dict:
@@ -936,7 +936,7 @@ def parse_attestation_object(
     """
     try:
         attestation_object_data = cbor2.loads(attestation_object)
-    except cbor2.CBORDecodeError:
+    except Exception:
         raise DecodingError('Could not decode the attestation object CBOR')
 
     if type(attestation_object_data) is not dict:
-- 
2.43.0


From 04188c695f19953aab29982b053ad04e76004e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 08/12] fix: report an unloadable Android key certificate as
 AttestationError

---
 webauthn_rp/attesters.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 8a8cec0..517a684 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -151,8 +151,13 @@ def attest_android_key(
     if len(att_stmt.x5c) == 0:
         raise AttestationError('Must have at least 1 X509 certificate')
 
-    credential_certificate = cryptography.x509.load_der_x509_certificate(
-        att_stmt.x5c[0], default_backend())
+    try:
+        credential_certificate = cryptography.x509.load_der_x509_certificate(
+            att_stmt.x5c[0], default_backend())
+    except ValueError:
+        raise AttestationError(
+            'Android key attestation failed: unable to load X509 certificate')
+
     cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
-- 
2.43.0


From c038f95212e2b4207d1aec2f11ab9f489098fe4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:46 +0000
Subject: [PATCH 09/12] fix: refuse FIDO U2F attestation of credential keys
 that are not P-256

---
 webauthn_rp/attesters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 517a684..6eab043 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -107,6 +107,11 @@ def attest_fido_u2f(
         att_obj.auth_data.attested_credential_data.credential_public_key)
 
     assert credential_public_key is not None
+    if (not isinstance(credential_public_key, EC2CredentialPublicKey)
+            or credential_public_key.crv.name != 'P_256'):
+        raise AttestationError(
+            'FIDO U2F attestation failed: credential key must use curve P-256')
+
     public_key_u2f = b'\x04' + (credential_public_key.x +
                                 credential_public_key.y)
 
-- 
2.43.0


From 8ace79fc27b15c5f72ca12731ad1c30e38814ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 10/12] fix: refuse invalid fields holding huge integers with
 ParserError

---
 webauthn_rp/parsers.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/webauthn_rp/parsers.py b/webauthn_rp/parsers.py
index dc80c5e..108b6f6 100644
--- a/webauthn_rp/parsers.py
+++ b/webauthn_rp/parsers.py
@@ -100,6 +100,14 @@ def parse_origin(origin: str) -> Origin:
     )
 
 
+def _describe(value: Any) -> str:
+    try:
+        return str(value)
+    except ValueError:
+        # Python limits the length of integers converted to decimal strings.
+        return 'of type {}'.format(type(value))
+
+
 def _parse_dictionary_field(field_key: Any,
                             valid_types: Union[Type, Sequence[Type]],
                             dictionary: Dict,
@@ -123,7 +131,7 @@ def _check_unsupported_keys(supported: Set[str], data: Dict):
     unsupported_keys = set(data.keys()).difference(supported)
     if unsupported_keys:
         raise ParserError(('Found unsupported keys in data {}').format(
-            str(unsupported_keys)))
+            _describe(unsupported_keys)))
 
 
 def _bytes_from_base64(s: str) -> bytes:
@@ -208,7 +216,8 @@ def _parse_credential_public_key_kty(
                    COSEKeyType(kty_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key type {}'.format(kty_raw))
+            'Invalid credential public key type {}'.format(
+                _describe(kty_raw)))
     return kty
 
 
@@ -223,7 +232,8 @@ def _parse_credential_public_key_alg(
                    COSEAlgorithmIdentifier(alg_raw))  # type: ignore
     except (KeyError, ValueError):
         raise ParserError(
-            'Invalid credential public key alg type {}'.format(alg_raw))
+            'Invalid credential public key alg type {}'.format(
+                _describe(alg_raw)))
     return alg
 
 
@@ -250,7 +260,7 @@ def _parse_credential_public_key_key_ops(
             key_ops.append(COSEKeyOperation(ko))  # type: ignore
         except (KeyError, ValueError):
             raise ParserError('Invalid credential public key key op {}'.format(
-                credential_public_key[4]))
+                _describe(credential_public_key[4])))
 
     return key_ops
 
@@ -276,7 +286,7 @@ def _parse_ec2_public_key_crv(
     try:
         return EC2Curve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid EC2 curve {}'.format(crv_raw))
+        raise ParserError('Invalid EC2 curve {}'.format(_describe(crv_raw)))
 
 
 def _parse_okp_public_key_crv(
@@ -285,7 +295,7 @@ def _parse_okp_public_key_crv(
     try:
         return OKPCurve(crv_raw)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid OKP curve {}'.format(crv_raw))
+        raise ParserError('Invalid OKP curve {}'.format(_describe(crv_raw)))
 
 
 def parse_okp_public_key(
@@ -394,7 +404,7 @@ def parse_extensions(
 
     if unsupported_extensions:
         raise ParserError('Found unsupported extensions {}'.format(
-            str(unsupported_extensions)))
+            _describe(unsupported_extensions)))
 
     appid = extensions.get('appid')
     tx_auth_simple = extensions.get('txAuthSimple')
@@ -455,7 +465,7 @@ def parse_extensions(
         unsupported_cvalues = set(loc.keys()).difference(supported_cvalues)
         if unsupported_cvalues:
             raise ParserError('Found unsupported loc key values {}'.format(
-                str(unsupported_cvalues)))
+                _describe(unsupported_cvalues)))
 
         loc = Coordinates(latitude=loc.get('latitude'),
                           longitude=loc.get('longitude'),
@@ -507,7 +517,8 @@ def _parse_attestation_statement_alg(
     try:
         alg = COSEAlgorithmIdentifier(alg)  # type: ignore
     except (KeyError, ValueError):
-        raise ParserError('Invalid algorithm identifier {}'.format(alg))
+        raise ParserError('Invalid algorithm identifier {}'.format(
+            _describe(alg)))
     return alg
 
 
-- 
2.43.0


From 3de6e6e64277becd6e04cdbdf90104c6573b5e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 11/12] fix: report every unusable attestation certificate as
 AttestationError

---
 webauthn_rp/attesters.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 6eab043..0b2b4c4 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -33,6 +33,10 @@ __all__ = [
     'attest_none',
 ]
 
+# Raised for certificates, or certificate public keys, that cannot be loaded.
+_CERTIFICATE_ERRORS = (ValueError, cryptography.x509.InvalidVersion,
+                       cryptography.exceptions.UnsupportedAlgorithm)
+
 
 @singledispatch
 def attest(att_stmt: AttestationStatement, att_obj: AttestationObject,
@@ -85,11 +89,11 @@ def attest_fido_u2f(
     try:
         att_cert_x509 = cryptography.x509.load_der_x509_certificate(
             att_cert, default_backend())
-    except ValueError:
+        att_cert_x509_pk = att_cert_x509.public_key()
+    except _CERTIFICATE_ERRORS:
         raise AttestationError(
             'FIDO U2F attestation failed: unable to load X509 certificate')
 
-    att_cert_x509_pk = att_cert_x509.public_key()
     if not isinstance(att_cert_x509_pk, EllipticCurvePublicKey):
         raise AttestationError(
             'FIDO U2F attestation failed: must use an Elliptic Curve Public Key'
@@ -159,11 +163,11 @@ def attest_android_key(
     try:
         credential_certificate = cryptography.x509.load_der_x509_certificate(
             att_stmt.x5c[0], default_backend())
-    except ValueError:
+        cred_cert_pk = credential_certificate.public_key()
+    except _CERTIFICATE_ERRORS:
         raise AttestationError(
             'Android key attestation failed: unable to load X509 certificate')
 
-    cred_cert_pk = credential_certificate.public_key()
     if not isinstance(
             cred_cert_pk,
         (EllipticCurvePublicKey, Ed25519PublicKey, Ed448PublicKey)):
@@ -208,7 +212,8 @@ def attest_android_key(
         extension = credential_certificate.extensions.get_extension_for_oid(
             ObjectIdentifier('1.3.6.1.4.1.11129.2.1.17'))
         assert isinstance(extension.value, UnrecognizedExtension)
-    except cryptography.x509.ExtensionNotFound:
+    except (cryptography.x509.ExtensionNotFound,
+            cryptography.x509.DuplicateExtension, ValueError):
         raise AttestationError(
             'Android key attestation failed: could not find android key '
             'attestation certificate extension data')
-- 
2.43.0


From 6067b6af496f042f11d68d36fc35f56d92a08453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:28 +0000
Subject: [PATCH 12/12] fix: report an Android key algorithm unfit for the key
 as AttestationError

---
 webauthn_rp/attesters.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/webauthn_rp/attesters.py b/webauthn_rp/attesters.py
index 0b2b4c4..d5bba0e 100644
--- a/webauthn_rp/attesters.py
+++ b/webauthn_rp/attesters.py
@@ -191,6 +191,11 @@ def attest_android_key(
             assert isinstance(cred_cert_pk, EllipticCurvePublicKey)
             assert att_stmt.alg is not None
 
+            if att_stmt.alg.name == 'EDDSA':
+                raise AttestationError(
+                    'Android key attestation failed: the algorithm does not '
+                    'match the certificate public key')
+
             hash_algorithm = ECDSA(ec2_hash_algorithm(att_stmt.alg))
             cred_cert_pk.verify(att_stmt.sig, verification_data,
                                 hash_algorithm)
-- 
2.43.0

