From ccf2345a20cf6e7ffeb05a34b13fe1c9733b6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:36 +0000
Subject: [PATCH 01/42] fix: draw EC keys and ECDSA nonces from the OS random
 source

Private keys, ephemeral keys and signature nonces came from the shared
Mersenne Twister, so they repeat after random.seed() or fork() and can be
predicted from earlier output.
---
 src/jwkest/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..ac8d325 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -14,7 +14,7 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
+from Cryptodome.Random.random import getrandbits
 from math import ceil
 
 
-- 
2.43.0


From 9caa20a4c849a39897274825a08c4fae3e7263e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:41 +0000
Subject: [PATCH 02/42] fix: draw a new nonce when an ECDSA signature comes out
 zero

The retry reused the same nonce, so the loop never ended.
---
 src/jwkest/ecc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index ac8d325..e3f31b1 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -76,8 +76,9 @@ class NISTEllipticCurve(object):
         return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
 
     def _sign_loop(self, r, s, h, k, priv):
+        fixed = k is not None
         while r == 0 or s == 0:
-            if k is None:
+            if not fixed:
                 k = (getrandbits(self.bits) % (self.N - 1)) + 1
             kinv = inv(k, self.N)
             kg = mulp(self.a, self.b, self.p, self.G, k)
-- 
2.43.0


From 8c38afb81802a681554623bd617808bd8b73d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 03/42] fix: always emit a 16 byte GCM tag

A tag with leading zero bytes lost them, so one token in 256 carried a
short tag that other implementations reject.
---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..18d5736 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -361,7 +361,7 @@ class JWe(JWx):
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
             gcm = AES_GCM(bytes_to_long(key))
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
-- 
2.43.0


From 2b52e882887160f37f1e97ffe3a19a65aca71e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:52 +0000
Subject: [PATCH 04/42] fix: write EC key members at the full width of the
 curve

RFC 7518 6.2.1.2 and 6.2.2.1 fix the length of x, y and d; leading zero
bytes were dropped, which strict receivers refuse.
---
 src/jwkest/__init__.py | 4 +++-
 src/jwkest/jwk.py      | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..9a9ab17 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -102,8 +102,10 @@ def long2intarr(long_int):
     return _bytes
 
 
-def long_to_base64(n):
+def long_to_base64(n, mlen=0):
     bys = long2intarr(n)
+    if len(bys) < mlen:
+        bys = [0] * (mlen - len(bys)) + bys
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
         data = '\x00'
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..0a74dd5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -630,12 +630,12 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": long_to_base64(self.x, self.curve.bytes),
+            "y": long_to_base64(self.y, self.curve.bytes)
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = long_to_base64(self.d, self.curve.bytes)
 
         return res
 
-- 
2.43.0


From 96cac4cfb98e2aa2ad6730547afb36f1689eebdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:57 +0000
Subject: [PATCH 05/42] fix: let a generated EC key know its curve

ECKey.load_key() left crv empty, so such a key could not be encrypted to.
---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 0a74dd5..845781e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -640,6 +640,7 @@ class ECKey(Key):
         return res
 
     def load_key(self, key):
+        self.crv = key.name()
         self.curve = key
         self.d, (self.x, self.y) = key.key_pair()
         return self
-- 
2.43.0


From 6816e2bd9f0e40de555f797dd0beda444238a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:25 +0000
Subject: [PATCH 06/42] fix: load a key set completely or not at all

A bad entry (or any failure part way) left the entries before it in the
set although the load had raised.
---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 845781e..22b0bc0 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -796,8 +796,8 @@ class KEYS(object):
         self._keys = []
 
     def load_dict(self, dikt):
-        for kspec in dikt["keys"]:
-            self._keys.append(keyrep(kspec))
+        # Build every key first, so that a bad one leaves nothing half loaded
+        self._keys.extend([keyrep(kspec) for kspec in dikt["keys"]])
 
     def load_jwks(self, jwks):
         """
-- 
2.43.0


From b7363b40d8774834bdfd4d179ad488de574b50d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:32 +0000
Subject: [PATCH 07/42] fix: replace all RSA key material when a key is
 reloaded

Loading a public key over a private one kept the old d, p and q, so the
exported private JWK mixed two keys.
---
 src/jwkest/jwk.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 22b0bc0..ea67819 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -533,9 +533,7 @@ class RSAKey(Key):
 
         :param filename: File name
         """
-        self.key = rsa_load(filename)
-        self._split()
-        return self
+        return self.load_key(rsa_load(filename))
 
     def load_key(self, key):
         """
@@ -543,8 +541,13 @@ class RSAKey(Key):
 
         :param key: An RSA key instance
         """
-        self.key = key
-        self._split()
+        # Split it on the side: nothing of an earlier key may remain, and
+        # this key stays as it was if the new one can't be used.
+        new = RSAKey()
+        new.key = key
+        new._split()
+        self.__dict__.update(
+            dict([(p, getattr(new, p)) for p in ["key"] + self.longs]))
         return self
 
     def encryption_key(self, **kwargs):
-- 
2.43.0


From 80ca29d9483191e6dc930e8c71df33fe4ea45f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:36 +0000
Subject: [PATCH 08/42] fix: make keys from jku and x5u usable

_get_keys() returned a dictionary where pick_keys() wants keys, so every
use of jku or x5u ended in an AttributeError.
---
 src/jwkest/jws.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..e0eecd9 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -40,6 +40,7 @@ from jwkest.ecc import P521
 
 from jwkest.jwk import load_x509_cert
 from jwkest.jwk import KEYS
+from jwkest.jwk import RSAKey
 from jwkest.jwk import HeaderError
 from jwkest.jwk import sha256_digest
 from jwkest.jwk import sha384_digest
@@ -349,15 +350,16 @@ class JWx(object):
         elif "jku" in self:
             keys = KEYS()
             keys.load_from_url(self["jku"])
-            return keys.as_dict()
+            return keys.keys()
         elif "x5u" in self:
             try:
-                return {"rsa": [load_x509_cert(self["x5u"], {})]}
+                return [RSAKey(key=_key) for _, _key in
+                        load_x509_cert(self["x5u"], {})]
             except Exception:
                 # ca_chain = load_x509_cert_chain(self["x5u"])
                 pass
 
-        return {}
+        return []
 
     def alg2keytype(self, alg):
         return alg2keytype(alg)
-- 
2.43.0


From d1e09e95f56209fbc8aefca3d704a68212abc217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 09/42] fix: don't let a JSON serialized JWS choose its own
 keys

verify_json() re-initialised the verifier from the message's headers, so an
embedded jwk replaced the configured one and was trusted, jku was fetched,
and the verifier kept the message's headers. An empty signature list was
accepted.
---
 src/jwkest/jws.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index e0eecd9..ec058ee 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -657,6 +657,16 @@ class JWS(JWx):
                     signature[key] = _jwss[key]
             _signs = [signature]
 
+        if not _signs:
+            raise FormatError("Missing signature")
+
+        # Keys are the caller's choice. Only a caller who states none at all
+        # gets the key the message brings along; URLs in it are never followed.
+        ignore = ["jku", "x5u"]
+        if keys is not None or [a for a in ["jwk", "jku", "x5u"] if a in self]:
+            ignore.append("jwk")
+            keys = keys or self._get_keys()
+
         _claim = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
@@ -667,14 +677,19 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
-            self.__init__(**all_headers)
+            _jws = JWS(**dict([(k, v) for k, v in all_headers.items()
+                               if k not in ignore]))
 
-            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
+            _tmp = _jws.verify_compact(token, keys, allow_none, sigalg)
             if _claim is None:
                 _claim = _tmp
-            else:
-                assert _claim == _tmp
+            elif _claim != _tmp:
+                raise BadSignature()
 
+        self.msg = _claim
+        self.jwt = _jws.jwt
+        if "key" in _jws.__dict__:
+            self.key = _jws.key
         return _claim
 
     def is_jws(self, jws):
-- 
2.43.0


From 96d086a9f7e9bac457671e04ef60a5b531b12983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:15 +0000
Subject: [PATCH 10/42] fix: keep a rejected or concurrent JWS from affecting
 another one

A rejected token left its alg in the verifier, which then refused good
tokens, and the payload was returned by way of the shared object, so another
thread's message could come back.
---
 src/jwkest/jws.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index ec058ee..5185fcd 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -541,8 +541,8 @@ class JWS(JWx):
         else:
             if _alg is None or _alg.lower() == "none":
                 if allow_none:
-                    self.msg = jwt.payload()
-                    return {'msg': self.msg}
+                    self.msg = _msg = jwt.payload()
+                    return {'msg': _msg}
                 else:
                     raise SignerAlgError("none not allowed")
 
@@ -554,12 +554,10 @@ class JWS(JWx):
             raise SignerAlgError("Expected {0} got {1}".format(
                 sigalg, jwt.headers["alg"]))
 
-        self["alg"] = _alg
-
         if keys:
-            _keys = self.pick_keys(keys)
+            _keys = self.pick_keys(keys, alg=_alg or "none")
         else:
-            _keys = self.pick_keys(self._get_keys())
+            _keys = self.pick_keys(self._get_keys(), alg=_alg or "none")
 
         if not _keys:
             if "kid" in self:
@@ -583,9 +581,10 @@ class JWS(JWx):
                 if res is True:
                     logger.debug(
                         "Verified message using key with kid=%s" % key.kid)
-                    self.msg = jwt.payload()
+                    self["alg"] = _alg
+                    self.msg = _msg = jwt.payload()
                     self.key = key
-                    return {'msg': self.msg, 'key': key}
+                    return {'msg': _msg, 'key': key}
 
         raise BadSignature()
 
-- 
2.43.0


From 124262eb2bf7ca71f04362fcd5568509b9df59ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:21 +0000
Subject: [PATCH 11/42] fix: try every candidate key when decrypting a JWE

A wrong key ahead of the right one ended the search for most algorithms, and
ECDH-ES only ever used the first key, so decryption broke during key
rollover.
---
 src/jwkest/jwe.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 18d5736..6fac44f 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -870,7 +870,7 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
+            cek = None
         else:
             raise NotSupportedAlgorithm
 
@@ -885,12 +885,17 @@ class JWE(JWx):
                 return msg
 
         for key in keys:
-            _key = key.encryption_key(alg=_alg, private=False)
             try:
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
+                _key = key.encryption_key(alg=_alg, private=False)
                 msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
-                pass
+            except (NotSupportedAlgorithm, EnvironmentError, MemoryError):
+                raise
+            except Exception as err:  # the next key may be the right one
+                logger.debug("Key with kid={} didn't decrypt: {}".format(
+                    key.kid, err))
             else:
                 logger.debug(
                     "Decrypted message using key with kid=%s" % key.kid)
-- 
2.43.0


From ba4d83d8ff3b181bbaff8e757eecb4db553371b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 12/42] fix: refuse ECDH ephemeral keys that are not on the
 recipient's curve

The sender's point was used unchecked, which lets it be chosen to reveal the
recipient's private key.
---
 src/jwkest/ecc.py | 4 ++++
 src/jwkest/jwe.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index e3f31b1..4dbadf5 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -8,6 +8,7 @@ from __future__ import division
 
 from Cryptodome.Util.number import long_to_bytes
 from Cryptodome.Util.number import bytes_to_long
+from jwkest.elliptic import element
 from jwkest.elliptic import inv
 from jwkest.elliptic import mulp
 from jwkest.elliptic import sign_bit
@@ -73,6 +74,9 @@ class NISTEllipticCurve(object):
     # Compute the DH shared secret (X coordinate) from a public key and private
     # key
     def dh_z(self, priv, pub):
+        if not (0 <= pub[0] < self.p and 0 <= pub[1] < self.p and
+                element(pub, self.a, self.b, self.p)):
+            raise ECCException("Public key not on the curve")
         return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
 
     def _sign_loop(self, r, s, h, k, priv):
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 6fac44f..00c5e45 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -653,6 +653,8 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        if epubkey.curve.name() != key.curve.name():
+            raise NoSuitableECDHKey("Ephemeral key on the wrong curve")
         apu = apv = ""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
-- 
2.43.0


From ddafd2f50d8bb87e7873142b68aae1c0c6734dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:30 +0000
Subject: [PATCH 13/42] fix: generate symmetric keys from the OS random source

---
 script/gen_symkey.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/script/gen_symkey.py b/script/gen_symkey.py
index 4a2cbb4..d70e3f7 100755
--- a/script/gen_symkey.py
+++ b/script/gen_symkey.py
@@ -11,7 +11,8 @@ __author__ = 'regu0004'
 
 
 def rndstr(size=6, chars=string.ascii_uppercase + string.digits):
-    return ''.join(random.choice(chars) for _ in range(size))
+    rnd = random.SystemRandom()
+    return ''.join(rnd.choice(chars) for _ in range(size))
 
 
 def main():
-- 
2.43.0


From 649d928e5bdeaed9ca7ce7508a7cee7f207067e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:34 +0000
Subject: [PATCH 14/42] fix: make private EC keys loaded from a JWKS usable

keyrep() turns every value into bytes, which the private part of an EC key
was not converted from, so signing and ECDH with such a key failed.
---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index ea67819..977e161 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -609,7 +609,7 @@ class ECKey(Key):
         self.curve = NISTEllipticCurve.by_name(self.crv)
         if self.d:
             try:
-                if isinstance(self.d, six.string_types):
+                if not isinstance(self.d, six.integer_types):
                     self.d = deser(self.d)
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
-- 
2.43.0


From bdbb966523cc2f70f1a5c8b06a97681ae2ba10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:40 +0000
Subject: [PATCH 15/42] fix: accept x5t on a certificate key in a JWKS

keyrep() hands over bytes, which have no encode().
---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 977e161..2d62297 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -472,7 +472,7 @@ class RSAKey(Key):
             der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
 
             if self.x5t:  # verify the cert
-                if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
+                if not b64d(as_bytes(self.x5t)) == hashlib.sha1(
                         der_cert).digest():
                     raise DeSerializationNotPossible(
                         "The thumbprint ('x5t') does not match the "
-- 
2.43.0


From 425cf008964c77b95984c7b5f26ee8399f93b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:45 +0000
Subject: [PATCH 16/42] fix: don't reuse an earlier message's content
 encryption key

A JWE instance remembers the cek of the last message it handled, and an
ECDH-ES key wrapping encryption with that instance picked it up.
---
 src/jwkest/jwe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 00c5e45..9d7ca4c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -801,8 +801,11 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             encrypter = JWE_EC(**self._dict)
+            # self['cek'] is the key of an earlier message, not of this one
+            _params = dict([(k, v) for k, v in self._dict.items()
+                            if k != "cek"])
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0], **_params)
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0


From c04baf3a8f71e31fb297503618a4b2f6fba14f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:50 +0000
Subject: [PATCH 17/42] fix: leave an EC key as it was when generating a new
 one fails

---
 src/jwkest/jwk.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 2d62297..183a156 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -643,9 +643,9 @@ class ECKey(Key):
         return res
 
     def load_key(self, key):
-        self.crv = key.name()
-        self.curve = key
-        self.d, (self.x, self.y) = key.key_pair()
+        d, (x, y) = key.key_pair()
+        self.__dict__.update({"crv": key.name(), "curve": key,
+                              "d": d, "x": x, "y": y})
         return self
 
     def decryption_key(self):
-- 
2.43.0


From 71ddd19a80abdc5a65114c188df5ba253c3f872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:56 +0000
Subject: [PATCH 18/42] fix: let jwkutil -d decrypt

decrypt() returns the message alone, and nothing printed it.
---
 script/jwkutil.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/script/jwkutil.py b/script/jwkutil.py
index c428686..3ecbfe1 100755
--- a/script/jwkutil.py
+++ b/script/jwkutil.py
@@ -143,12 +143,14 @@ if __name__ == "__main__":
         print(encrypt(message, keys, args.encalg, args.encenc))
     else:
         if args.decrypt:
-            _msg, _res = decrypt(message, keys)
+            _msg = decrypt(message, keys)
         else:
             _msg = message
 
         if args.verify:
             print(verify(_msg, keys))
+        elif args.decrypt:
+            print(_msg)
 
 # -e -J edmund.jwks -f text.json -E "A128CBC-HS256" -A "RSA1_5" -l ju.log
 # -d -r op.key -f edmund.jwe -i a0
-- 
2.43.0


From 0965f61e6f975b64b058e38188f8decf9526a787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:15 +0000
Subject: [PATCH 19/42] fix: refuse a JWE that doesn't have five parts

---
 src/jwkest/jwe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 9d7ca4c..a7c0bc1 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -539,6 +539,9 @@ class JWE_RSA(JWe):
         else:
             jwe = token
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         self.jwt = jwe.encrypted_key()
         jek = jwe.encrypted_key()
 
@@ -642,6 +645,9 @@ class JWE_EC(JWe):
 
     def dec_setup(self, token, key=None, **kwargs):
 
+        if len(token) != 5:
+            raise WrongNumberOfParts(len(token))
+
         self.headers = token.headers
         self.iv = token.initialization_vector()
         self.ctxt = token.ciphertext()
-- 
2.43.0


From 18d2d972aa769893467f558a47a1b5934a7fa596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:49 +0000
Subject: [PATCH 20/42] fix: encrypt ECDH-ES to a public key

---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a7c0bc1..42889d6 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -827,9 +827,9 @@ class JWE(JWx):
         for key in keys:
             if isinstance(encrypter, JWE_EC):
                 if self.enc:
-                    _key = key.encryption_key(alg=self.enc, private=True)
+                    _key = key.encryption_key(alg=self.enc, private=False)
                 else:
-                    _key = key.encryption_key(alg=_alg, private=True)
+                    _key = key.encryption_key(alg=_alg, private=False)
             else:
                 _key = key.encryption_key(alg=_alg, private=True)
 
-- 
2.43.0


From d38c2f66b607a13364052b706cf26bd45252202d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:06 +0000
Subject: [PATCH 21/42] fix: copy the JWE parameters in one step, another
 thread may set cek

---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 42889d6..72f6ce4 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -808,8 +808,8 @@ class JWE(JWx):
 
             encrypter = JWE_EC(**self._dict)
             # self['cek'] is the key of an earlier message, not of this one
-            _params = dict([(k, v) for k, v in self._dict.items()
-                            if k != "cek"])
+            _params = self._dict.copy()
+            _params.pop("cek", None)
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
                 self.msg, self._dict, key=keys[0], **_params)
             kwargs["encrypted_key"] = encrypted_key
-- 
2.43.0


From 135bce88f1405056f7fecc362fce2c6ccf823a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:30 +0000
Subject: [PATCH 22/42] fix: pick keys by the kid of the message at hand, not
 of another thread's

---
 src/jwkest/jws.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 5185fcd..737d2ac 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -364,12 +364,13 @@ class JWx(object):
     def alg2keytype(self, alg):
         return alg2keytype(alg)
 
-    def pick_keys(self, keys, use="", alg=""):
+    def pick_keys(self, keys, use="", alg="", jwt=None):
         """
         The assumption is that upper layer has made certain you only get
         keys you can use.
 
         :param keys: A list of KEY instances
+        :param jwt: The message to pick keys for, default is self.jwt
         :return: A list of KEY instances that fulfill the requirements
         """
         if not alg:
@@ -391,7 +392,7 @@ class JWx(object):
             _kid = self["kid"]
         except KeyError:
             try:
-                _kid = self.jwt.headers["kid"]
+                _kid = (jwt or self.jwt).headers["kid"]
             except (AttributeError, KeyError):
                 _kid = None
 
@@ -555,17 +556,18 @@ class JWS(JWx):
                 sigalg, jwt.headers["alg"]))
 
         if keys:
-            _keys = self.pick_keys(keys, alg=_alg or "none")
+            _keys = self.pick_keys(keys, alg=_alg or "none", jwt=jwt)
         else:
-            _keys = self.pick_keys(self._get_keys(), alg=_alg or "none")
+            _keys = self.pick_keys(self._get_keys(), alg=_alg or "none",
+                                   jwt=jwt)
 
         if not _keys:
             if "kid" in self:
                 raise NoSuitableSigningKeys(
                     "No key with kid: %s" % (self["kid"]))
-            elif "kid" in self.jwt.headers:
+            elif "kid" in jwt.headers:
                 raise NoSuitableSigningKeys(
-                    "No key with kid: %s" % (self.jwt.headers["kid"]))
+                    "No key with kid: %s" % (jwt.headers["kid"]))
             else:
                 raise NoSuitableSigningKeys("No key for algorithm: %s" % _alg)
 
-- 
2.43.0


From 9d781ea9da5caac962b695c00aee4aa2bafd66bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:43 +0000
Subject: [PATCH 23/42] fix: a failed verification leaves no key id behind for
 the next signature

---
 src/jwkest/jws.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 737d2ac..9b5b7d0 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -533,8 +533,6 @@ class JWS(JWx):
         if len(jwt) != 3:
             raise WrongNumberOfParts(len(jwt))
 
-        self.jwt = jwt
-
         try:
             _alg = jwt.headers["alg"]
         except KeyError:
@@ -543,6 +541,7 @@ class JWS(JWx):
             if _alg is None or _alg.lower() == "none":
                 if allow_none:
                     self.msg = _msg = jwt.payload()
+                    self.jwt = jwt
                     return {'msg': _msg}
                 else:
                     raise SignerAlgError("none not allowed")
@@ -583,8 +582,10 @@ class JWS(JWx):
                 if res is True:
                     logger.debug(
                         "Verified message using key with kid=%s" % key.kid)
+                    _msg = jwt.payload()
                     self["alg"] = _alg
-                    self.msg = _msg = jwt.payload()
+                    self.msg = _msg
+                    self.jwt = jwt
                     self.key = key
                     return {'msg': _msg, 'key': key}
 
-- 
2.43.0


From 2fa5fe81abd060273208f121c6fed261a3a5b093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 24/42] fix: decrypt ECDH-ES messages without apu or apv

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 72f6ce4..012919b 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -661,7 +661,7 @@ class JWE_EC(JWe):
         epubkey = ECKey(**self.headers["epk"])
         if epubkey.curve.name() != key.curve.name():
             raise NoSuitableECDHKey("Ephemeral key on the wrong curve")
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From e55f969617477d72fbe4fb6138ab877eb1eadb4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:55 +0000
Subject: [PATCH 25/42] fix: an ECDSA algorithm only picks keys on its own
 curve

---
 src/jwkest/jws.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 9b5b7d0..b478e91 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -211,6 +211,10 @@ SIGNER_ALGS = {
 }
 
 
+# The curve that goes with each ECDSA algorithm
+ES_CURVE = {"ES256": "P-256", "ES384": "P-384", "ES512": "P-521"}
+
+
 def alg2keytype(alg):
     if not alg or alg.lower() == "none":
         return "none"
@@ -418,6 +422,10 @@ class JWx(object):
             if alg and _key.alg and _key.alg != alg:
                 continue
 
+            _curve = getattr(_key, "curve", None)
+            if alg in ES_CURVE and _curve and _curve.name() != ES_CURVE[alg]:
+                continue
+
             pkey.append(_key)
 
         return pkey
-- 
2.43.0


From 18b33eb91a2f4a5ad03017643ce8dbb2ce2b6b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:04 +0000
Subject: [PATCH 26/42] fix: refuse ECDSA signatures that are not of full width

A zero byte put before the second half left the signature valid.
---
 src/jwkest/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 4dbadf5..8f36dfd 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -104,6 +104,8 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
+        if len(sig) != 2 * self.bytes:
+            return False
         while h > self.N:
             h >>= 1
         r = self.bytes2int(sig[:self.bytes])
-- 
2.43.0


From a2204e4f5673d96f920ee8e8d696ded9b47d15bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:09 +0000
Subject: [PATCH 27/42] fix: refuse a GCM IV or tag that is not of full width

They were compared as numbers, so that zero bytes put before them went unnoticed.
---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 012919b..2273af0 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -383,6 +383,9 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
+            # as numbers they could have lost or gained zero bytes
+            if len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed("IV or tag of the wrong size")
             gcm = AES_GCM(bytes_to_long(key))
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
-- 
2.43.0


From 4205e5a32a1c434f59b4f151bf8a1e6f1efdc7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:12 +0000
Subject: [PATCH 28/42] fix: shorten an ECDSA digest only when it is wider than
 the curve

A digest above the group order but no wider than it was shifted right,
so such a signature was refused by every other implementation and
theirs was refused here.
---
 src/jwkest/ecc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 8f36dfd..1f4f410 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -94,7 +94,7 @@ class NISTEllipticCurve(object):
 
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
+        while h.bit_length() > self.bits:
             h >>= 1
 
         r = s = 0
@@ -106,7 +106,7 @@ class NISTEllipticCurve(object):
     def verify(self, h, sig, pub):
         if len(sig) != 2 * self.bytes:
             return False
-        while h > self.N:
+        while h.bit_length() > self.bits:
             h >>= 1
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
-- 
2.43.0


From 0c6c61040af895cbddacf9205fb6f684f511bb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:46 +0000
Subject: [PATCH 29/42] fix: refuse to unwrap a key that is not wrapped at all

The eight bytes of the integrity check alone unwrapped to an empty key,
which AES-GCM took as a zero key: anybody could make a message that a
holder of a shared key decrypted.
---
 src/jwkest/aes_key_wrap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..9b05a6e 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -46,6 +46,9 @@ def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
 
 
 def aes_unwrap_key(kek, wrapped, iv=0xa6a6a6a6a6a6a6a6):
+    # less than two blocks of key are not wrapped at all (RFC 3394)
+    if len(wrapped) < 24 or len(wrapped) % 8:
+        raise ValueError("Wrapped key of the wrong size")
     key, key_iv = aes_unwrap_key_and_iv(kek, wrapped)
     if key_iv != iv:
         raise ValueError(
-- 
2.43.0


From 13c62edd3c6f743e92c403a0d547bb1a76b1b444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:29 +0000
Subject: [PATCH 30/42] fix: decompress symmetric and EC messages too

The zip header of such a message was ignored, so decryption returned the
compressed text as if that was what the sender encrypted.
---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 2273af0..1c78f2e 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -473,7 +473,7 @@ class JWE_SYM(JWe):
             jwe.b64_protected_header(),
             jwe.initialization_vector(), jwe.authentication_tag())
 
-        if "zip" in self and self["zip"] == "DEF":
+        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
             msg = zlib.decompress(msg)
 
         return msg
@@ -731,6 +731,8 @@ class JWE_EC(JWe):
                                            self.ctxt,
                                            jwe.b64part[0],
                                            self.iv, self.tag)
+        if "zip" in self.headers and self.headers["zip"] == "DEF":
+            msg = zlib.decompress(msg)
         self.msg = msg
         self.msg_valid = True
         return msg
-- 
2.43.0


From 84752ccacdbae2efccf886408e97c09bc93f1d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:37 +0000
Subject: [PATCH 31/42] fix: a payload that nests too deeply for JSON is text

A signed text that starts with very many brackets could not be verified.
---
 src/jwkest/jwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 3240cf8..ec836d7 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -102,7 +102,7 @@ class JWT(object):
         else:
             try:
                 _msg = json.loads(_msg)
-            except ValueError:
+            except (ValueError, RuntimeError):  # or nested too deeply
                 pass
 
         return _msg
-- 
2.43.0


From 142df20badc8da84b15b1cc5281dcf2ace4f3a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 32/42] fix: do not log the content encryption key

---
 src/jwkest/jwe.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 1c78f2e..1890c94 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -507,8 +507,6 @@ class JWE_RSA(JWe):
         cek, iv = self._generate_key_and_iv(_enc, cek, iv)
         self["cek"] = cek
 
-        logger.debug("cek: %s, iv: %s" % ([c for c in cek], [c for c in iv]))
-
         _encrypt = RSAEncrypter(self.with_digest).encrypt
 
         _alg = self["alg"]
-- 
2.43.0


From 5cdb58800788821939fa1cf78216481b2524b915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 33/42] fix: do not publish a symmetric key in the jwk header

---
 src/jwkest/jws.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index b478e91..c9b2ada 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -337,6 +337,10 @@ class JWx(object):
         elif "jwk" in _extra:
             _header["jwk"] = extra["jwk"].serialize()
 
+        # a header is for everyone to read, so a shared key does not belong there
+        if (_header.get("jwk") or {}).get("kty") == "oct":
+            del _header["jwk"]
+
         if "kid" in self:
             try:
                 assert isinstance(self["kid"], six.string_types)
-- 
2.43.0


From ae44caa54b639d7c87c83c9755367d371219c1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:17 +0000
Subject: [PATCH 34/42] fix: do not log symmetric encryption keys

---
 src/jwkest/jwk.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 183a156..6934c7e 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -719,9 +719,6 @@ class SYMKey(Key):
         else:
             raise JWKException("No support for symmetric keys > 512 bits")
 
-        logger.debug('Symmetric encryption key: {}'.format(
-            as_unicode(b64e(_enc_key))))
-
         return _enc_key
 
 
-- 
2.43.0


From 033d8c1510a46bca9fcf625e89f1e411fd46166c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:57 +0000
Subject: [PATCH 35/42] fix: a signature check that ends at infinity is no
 match

---
 src/jwkest/ecc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 1f4f410..9fbdd7e 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -114,8 +114,9 @@ class NISTEllipticCurve(object):
             w = inv(s, self.N)
             u1 = (h * w) % self.N
             u2 = (r * w) % self.N
-            x, y = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
-            return r % self.N == x % self.N
+            point = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
+            # None is the point at infinity, which no signature leads to
+            return point is not None and r % self.N == point[0] % self.N
         return False
 
 
-- 
2.43.0


From a2ceefa4941687efaebe2feb341ff75cf7154f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:01 +0000
Subject: [PATCH 36/42] fix: a key listed without its material is passed over
 when verifying

---
 src/jwkest/jwk.py | 7 +++++++
 src/jwkest/jws.py | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 6934c7e..3844363 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -316,6 +316,10 @@ class Key(object):
     def get_key(self, **kwargs):
         return self.key
 
+    def has_key(self):
+        """ Whether there is anything here to verify a signature with """
+        return self.key is not None
+
     def verify(self):
         """
         Verify that the information gathered from the on-the-wire
@@ -626,6 +630,9 @@ class ECKey(Key):
             else:
                 raise ValueError()
 
+    def has_key(self):
+        return bool(self.x and self.y)
+
     def serialize(self, private=False):
         if not self.crv and not self.curve:
             raise SerializationNotPossible()
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index c9b2ada..9d8861b 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -585,6 +585,9 @@ class JWS(JWx):
         verifier = SIGNER_ALGS[_alg]
 
         for key in _keys:
+            if not key.has_key():  # a key set may list a key without it
+                continue
+
             try:
                 res = verifier.verify(jwt.sign_input(), jwt.signature(),
                                       key.get_key(alg=_alg, private=False))
-- 
2.43.0


From 8e6cdaa0341b2d5c4f55579e674e173ef2b497de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 37/42] fix: sign_compact leaves the caller's protected headers
 alone

The kid and algorithm of one signature stayed in the dictionary and were
claimed for the next one, made with another key.
---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 9d8861b..2f23c5c 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -470,7 +470,7 @@ class JWS(JWx):
         else:
             keys = self.pick_keys(self._get_keys(), use=use, alg=_alg)
 
-        xargs = protected or {}
+        xargs = dict(protected or {})
         xargs["alg"] = _alg
 
         if keys:
-- 
2.43.0


From 68a64b063149131807da83e7fe31db6179cec57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:25 +0000
Subject: [PATCH 38/42] fix: thumbprint leaves the caller's list of members
 alone

---
 src/jwkest/jwk.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 3844363..c310d1f 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -369,10 +369,9 @@ class Key(object):
         if members is None:
             members = self.required
 
-        members.sort()
         ser = self.serialize()
         _se = []
-        for elem in members:
+        for elem in sorted(members):
             try:
                 _val = ser[elem]
             except KeyError:  # should never happen with the required set
-- 
2.43.0


From 9b6356a6d39d5e8bbff0d17fb42f560618f9c184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:03 +0000
Subject: [PATCH 39/42] fix: refuse a directly agreed JWE that carries an
 encrypted key

---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 1890c94..b6e8ea5 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -674,6 +674,9 @@ class JWE_EC(JWe):
             except KeyError:
                 raise Exception("Unknown key length for algorithm")
 
+            if token.encrypted_key():  # the agreed key is used as it is
+                raise DecryptionFailed("Direct agreement with encrypted key")
+
             self.cek = ecdh_derive_key(epubkey.curve, key.d,
                                        (epubkey.x, epubkey.y), apu, apv,
                                        str(self.headers["enc"]).encode(),
-- 
2.43.0


From bedda4448e6d0c955661750e437053406578a184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:12 +0000
Subject: [PATCH 40/42] fix: a key that loads new material forgets the hash of
 the old

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c310d1f..6091c5c 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -550,7 +550,7 @@ class RSAKey(Key):
         new.key = key
         new._split()
         self.__dict__.update(
-            dict([(p, getattr(new, p)) for p in ["key"] + self.longs]))
+            dict([(p, getattr(new, p)) for p in ["key", "_hash"] + self.longs]))
         return self
 
     def encryption_key(self, **kwargs):
@@ -651,7 +651,7 @@ class ECKey(Key):
     def load_key(self, key):
         d, (x, y) = key.key_pair()
         self.__dict__.update({"crv": key.name(), "curve": key,
-                              "d": d, "x": x, "y": y})
+                              "d": d, "x": x, "y": y, "_hash": None})
         return self
 
     def decryption_key(self):
-- 
2.43.0


From f17dad9137338c3ba85e7453c39f6857a72d52b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 41/42] fix: signing does not fix the algorithm for the
 signer's later messages

---
 src/jwkest/jws.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 2f23c5c..2599f40 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -443,12 +443,10 @@ class JWx(object):
             if keys is not None and len(keys) == 1:
                 key = next(iter(keys))  # first element from either list or dict
                 if key.alg:
-                    self["alg"] = alg = key.alg
+                    alg = key.alg
 
-        if not alg:
-            self["alg"] = alg = "none"
-
-        return alg
+        # Not kept: the next message may be signed with another key
+        return alg or "none"
 
     def _decode(self, payload):
         _msg = b64d(bytes(payload))
-- 
2.43.0


From afd2ade334508690255e4284faff24fb94133598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:00 +0000
Subject: [PATCH 42/42] fix: an interrupted verification leaves no half of the
 message behind

---
 src/jwkest/jws.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 2599f40..1d97231 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -550,8 +550,9 @@ class JWS(JWx):
         else:
             if _alg is None or _alg.lower() == "none":
                 if allow_none:
-                    self.msg = _msg = jwt.payload()
-                    self.jwt = jwt
+                    _msg = jwt.payload()
+                    # in one step, or an interruption leaves half of it
+                    self.__dict__.update(msg=_msg, jwt=jwt)
                     return {'msg': _msg}
                 else:
                     raise SignerAlgError("none not allowed")
@@ -596,10 +597,8 @@ class JWS(JWx):
                     logger.debug(
                         "Verified message using key with kid=%s" % key.kid)
                     _msg = jwt.payload()
-                    self["alg"] = _alg
-                    self.msg = _msg
-                    self.jwt = jwt
-                    self.key = key
+                    self.__dict__.update(msg=_msg, jwt=jwt, key=key,
+                                         _dict=dict(self._dict, alg=_alg))
                     return {'msg': _msg, 'key': key}
 
         raise BadSignature()
@@ -701,10 +700,10 @@ class JWS(JWx):
             elif _claim != _tmp:
                 raise BadSignature()
 
-        self.msg = _claim
-        self.jwt = _jws.jwt
+        done = {"msg": _claim, "jwt": _jws.jwt}
         if "key" in _jws.__dict__:
-            self.key = _jws.key
+            done["key"] = _jws.key
+        self.__dict__.update(done)
         return _claim
 
     def is_jws(self, jws):
-- 
2.43.0

