From b8978c7fd3431594327dd19333d9391a1dcfd993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 01/71] fix: refuse wrapped keys and key data of invalid length
 in AES key wrap

RFC 3394 needs at least two 64-bit blocks and whole blocks only. Shorter
input skipped the cipher altogether, so that eight 0xa6 octets unwrapped
to an empty key under every KEK; trailing octets were dropped silently.
---
 src/jwkest/aes_key_wrap.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..3dc437b 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -31,6 +31,11 @@ QUAD = struct.Struct('>Q')
 
 
 def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
+    # RFC 3394: the wrapped key is n+1 64-bit values, with n >= 2
+    if len(wrapped) % 8 or len(wrapped) < 24:
+        raise ValueError(
+            "Invalid length of wrapped key: {}".format(len(wrapped)))
+
     n = (len(wrapped) // 8) - 1
     #NOTE: R[0] is never accessed, left in for consistency with RFC indices
     r = [None] + [wrapped[i * 8:i * 8 + 8] for i in range(1, n + 1)]
@@ -65,6 +70,11 @@ def aes_unwrap_key_withpad(kek, wrapped):
 
 
 def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
+    # RFC 3394: the key data is n 64-bit values, with n >= 2
+    if len(plaintext) % 8 or len(plaintext) < 16:
+        raise ValueError(
+            "Invalid length of key to wrap: {}".format(len(plaintext)))
+
     n = len(plaintext) // 8
     r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
     a = iv
-- 
2.43.0


From 9f0282cb4648591f02e12be9d681e5fc652249cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:15 +0000
Subject: [PATCH 02/71] fix: aes_wrap_key_withpad pads octets with octets

---
 src/jwkest/aes_key_wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 3dc437b..6214969 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -89,7 +89,7 @@ def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
 
 def aes_wrap_key_withpad(kek, plaintext):
     iv = 0xA65959A600000000 + len(plaintext)
-    plaintext += "\0" * (8 - len(plaintext) % 8)
+    plaintext += b"\0" * (8 - len(plaintext) % 8)
     return aes_wrap_key(kek, plaintext, iv)
 
 
-- 
2.43.0


From 94dc2da47083e21c887289ab54a246333962b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 03/71] fix: AES-GCM content encryption works on octets of the
 prescribed sizes

Converting the CEK to an integer turned A192GCM into AES-256 with a
zero-extended key, a tag with a leading zero octet was emitted short, and
IVs and tags of other lengths were accepted on decryption.
---
 src/jwkest/aes_gcm.py |  7 ++++++-
 src/jwkest/jwe.py     | 10 +++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index bb158c7..1083d0f 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -33,6 +33,8 @@ except ImportError:
     pass
 # from past.utils import old_div
 
+import six
+
 from Cryptodome.Cipher import AES
 from Cryptodome.Util import Counter
 from Cryptodome.Util.number import bytes_to_long
@@ -80,7 +82,10 @@ class AES_GCM(object):
         # if master_key >= (1 << 128):
         #    raise InvalidInputException('Master key should be 128-bit')
 
-        self._master_key = long_to_bytes(master_key, 16)
+        if isinstance(master_key, six.binary_type):
+            self._master_key = master_key
+        else:
+            self._master_key = long_to_bytes(master_key, 16)
         self._aes_ecb = AES.new(self._master_key, AES.MODE_ECB)
         self._auth_key = bytes_to_long(self._aes_ecb.encrypt(b'\x00' * 16))
 
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..f1dc682 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -359,9 +359,11 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            if len(key) != ENCALGLEN1[enc_alg] or len(iv) != 12:
+                raise ParameterError("Wrong CEK or IV size for %s" % enc_alg)
+            gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
@@ -383,7 +385,9 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            if len(key) != ENCALGLEN1[enc] or len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed("Wrong CEK, IV or tag size")
+            gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                    auth_data)
-- 
2.43.0


From 64a27813713ff6f1f880ec9b1f41325bafe90501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:02 +0000
Subject: [PATCH 04/71] fix: the CEK size must be the one of the CBC-HMAC
 encryption method

The digest and cipher were chosen from the size of the CEK, whatever the
"enc" header said.
---
 src/jwkest/jwe.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index f1dc682..0af8127 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -365,7 +365,8 @@ class JWe(JWx):
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
-            assert enc_alg in SUPPORTED["enc"]
+            if len(key) != ENCALGLEN2[enc_alg]:
+                raise ParameterError("Wrong CEK size for %s" % enc_alg)
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
         else:
             raise NotSupportedAlgorithm(enc_alg)
@@ -395,6 +396,8 @@ class JWe(JWx):
             except DecryptionFailed:
                 raise
         elif enc in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
+            if len(key) != ENCALGLEN2[enc]:
+                raise DecryptionFailed("Wrong CEK size")
             return aes_cbc_hmac_decrypt(key, iv, auth_data, ctxt, tag)
         else:
             raise Exception("Unsupported encryption algorithm %s" % enc)
-- 
2.43.0


From 0d35be6668fbf51b542393cf3568a0cdffeed721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:22 +0000
Subject: [PATCH 05/71] fix: ECDSA truncates a digest by bit length, not by
 value

A digest that is larger than the group order but not longer is used as
it is (FIPS 186-4 6.4); halving it gave signatures nobody else accepts.
---
 src/jwkest/ecc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..cae6d6f 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -89,7 +89,7 @@ class NISTEllipticCurve(object):
 
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
+        while h.bit_length() > self.N.bit_length():
             h >>= 1
 
         r = s = 0
@@ -99,7 +99,7 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
-        while h > self.N:
+        while h.bit_length() > self.N.bit_length():
             h >>= 1
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
-- 
2.43.0


From ca210b2e07ed0d7722920cd8ec9140af90335820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:26 +0000
Subject: [PATCH 06/71] fix: an ECDSA signature has exactly two coordinates'
 worth of octets

Zero octets could be inserted before, or stripped from, the second half
without the signature being rejected.
---
 src/jwkest/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index cae6d6f..c933909 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -101,6 +101,8 @@ class NISTEllipticCurve(object):
     def verify(self, h, sig, pub):
         while h.bit_length() > self.N.bit_length():
             h >>= 1
+        if len(sig) != 2 * self.bytes:
+            return False
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
         if 0 < r < self.N and 0 < s < self.N:
-- 
2.43.0


From 72b69cead81561e79069871e93cba6985ab00ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:45 +0000
Subject: [PATCH 07/71] fix: ECDSA verification fails, not crashes, on the
 point at infinity

---
 src/jwkest/ecc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index c933909..812c200 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -109,8 +109,9 @@ class NISTEllipticCurve(object):
             w = inv(s, self.N)
             u1 = (h * w) % self.N
             u2 = (r * w) % self.N
-            x, y = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
-            return r % self.N == x % self.N
+            point = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
+            if point:
+                return r % self.N == point[0] % self.N
         return False
 
 
-- 
2.43.0


From 0349478812ea2c36ce47719a54596f5a273ac32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 08/71] fix: EC private keys and ECDSA nonces come from a
 secure random source

random.getrandbits is the Mersenne Twister, whose state can be recovered
from its output and seeded by anybody in the process.
---
 src/jwkest/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 812c200..fa5500d 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -14,7 +14,7 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
+from Cryptodome.Random.random import getrandbits
 from math import ceil
 
 
-- 
2.43.0


From 2aec55a625bb9ddafec55e385c2a3a659e1f7121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:05 +0000
Subject: [PATCH 09/71] fix: gen_symkey uses a secure random source

---
 script/gen_symkey.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/script/gen_symkey.py b/script/gen_symkey.py
index 4a2cbb4..e3e57da 100755
--- a/script/gen_symkey.py
+++ b/script/gen_symkey.py
@@ -1,6 +1,6 @@
 #! /usr/bin/env python
 import json
-import random
+from Cryptodome.Random import random
 import string
 
 import argparse
-- 
2.43.0


From e62fef40792b8ffcec63e765c682f8ddbc5d6940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 10/71] fix: the ECDH-ES key derivation uses the AlgorithmID of
 RFC 7518

It was neither length-prefixed nor, when wrapping a key, the full value
of the "alg" header, so that no other implementation derives the same
key (RFC 7518, section 4.6.2 and appendix C).
---
 src/jwkest/extra.py | 3 ++-
 src/jwkest/jwe.py   | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 9777532..4a98c5d 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -176,7 +176,8 @@ def ecdh_derive_key(curve, key, epk, apu, apv, alg, dk_len):
     Z = curve.dh_z(key, epk)
     # Derive the key
     # AlgorithmID || PartyUInfo || PartyVInfo || SuppPubInfo
-    otherInfo = bytes(alg) + \
+    # where the first three are length-prefixed (RFC 7518, section 4.6.2)
+    otherInfo = pack("!I", len(alg)) + bytes(alg) + \
         pack("!I", len(apu)) + apu + \
         pack("!I", len(apv)) + apv + \
         pack("!I", dk_len)
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 0af8127..9d27a70 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -640,7 +640,7 @@ class JWE_EC(JWe):
             _pre, _post = self.alg.split("+")
             klen = int(_post[1:4])
             kek = ecdh_derive_key(curve, epk.d, (key.x, key.y), apu, apv,
-                                  str(_post).encode(), klen)
+                                  str(self.alg).encode(), klen)
             encrypted_key = aes_wrap_key(kek, cek)
         else:
             raise Exception("Unsupported algorithm %s" % self.alg)
@@ -681,7 +681,8 @@ class JWE_EC(JWe):
             _pre, _post = self.headers['alg'].split("+")
             klen = int(_post[1:4])
             kek = ecdh_derive_key(epubkey.curve, key.d, (epubkey.x, epubkey.y),
-                                  apu, apv, str(_post).encode(), klen)
+                                  apu, apv,
+                                  str(self.headers["alg"]).encode(), klen)
             self.cek = aes_unwrap_key(kek, token.encrypted_key())
         else:
             raise Exception("Unsupported algorithm %s" % self.headers["alg"])
-- 
2.43.0


From 923e2209cb88b54e9aaa82b3e196f1ac9d135f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:25 +0000
Subject: [PATCH 11/71] fix: ECDH-ES party info may be absent, and given as
 text

---
 src/jwkest/jwe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 9d27a70..2e5ef0d 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -593,11 +593,11 @@ class JWE_EC(JWe):
 
         # Generate the input parameters
         try:
-            apu = b64d(kwargs["apu"])
+            apu = b64d(as_bytes(kwargs["apu"]))
         except KeyError:
             apu = Random.get_random_bytes(16)
         try:
-            apv = b64d(kwargs["apv"])
+            apv = b64d(as_bytes(kwargs["apv"]))
         except KeyError:
             apv = Random.get_random_bytes(16)
 
@@ -660,7 +660,7 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From ccd16c250fe824ea868d7ef7be0345c84db8f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:13 +0000
Subject: [PATCH 12/71] fix: key agreement refuses points that are not on the
 recipient's curve

An ephemeral key on another or an invalid curve lets its sender learn the
recipient's private key from the outcomes (invalid curve attack).
---
 src/jwkest/ecc.py | 8 ++++++++
 src/jwkest/jwe.py | 2 ++
 2 files changed, 10 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index fa5500d..58d64fe 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -8,6 +8,7 @@ from __future__ import division
 
 from Cryptodome.Util.number import long_to_bytes
 from Cryptodome.Util.number import bytes_to_long
+from jwkest.elliptic import element
 from jwkest.elliptic import inv
 from jwkest.elliptic import mulp
 from jwkest.elliptic import sign_bit
@@ -70,9 +71,16 @@ class NISTEllipticCurve(object):
     def public_key_for(self, priv):
         return mulp(self.a, self.b, self.p, self.G, priv)
 
+    # Whether (x, y) is a point on this curve
+    def on_curve(self, pub):
+        return all(0 <= c < self.p for c in pub) and element(
+            pub, self.a, self.b, self.p)
+
     # Compute the DH shared secret (X coordinate) from a public key and private
     # key
     def dh_z(self, priv, pub):
+        if not self.on_curve(pub):
+            raise ECCException("Public key is not on the curve")
         return self.int2bytes(mulp(self.a, self.b, self.p, pub, priv)[0])
 
     def _sign_loop(self, r, s, h, k, priv):
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 2e5ef0d..8d25dca 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -660,6 +660,8 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        if epubkey.curve.name() != key.curve.name():
+            raise DecryptionFailed("Ephemeral Public Key on the wrong curve")
         apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
-- 
2.43.0


From be78e3606a3497149160dfe61450638570fad58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:18 +0000
Subject: [PATCH 13/71] fix: an encrypted token has five parts, whatever the
 algorithm

Extra parts were ignored with RSA and ECDH-ES, and so was an encrypted
key where direct key agreement requires it to be empty.
---
 src/jwkest/jwe.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 8d25dca..d99ceea 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -546,6 +546,9 @@ class JWE_RSA(JWe):
         else:
             jwe = token
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         self.jwt = jwe.encrypted_key()
         jek = jwe.encrypted_key()
 
@@ -669,6 +672,9 @@ class JWE_EC(JWe):
             apv = b64d(self.headers["apv"].encode())
 
         if self.headers["alg"] == "ECDH-ES":
+            # RFC 7516: the encrypted key is empty with direct key agreement
+            if token.encrypted_key():
+                raise DecryptionFailed("Unexpected encrypted key")
             try:
                 dk_len = KEYLEN[self.headers["enc"]]
             except KeyError:
@@ -723,6 +729,9 @@ class JWE_EC(JWe):
         else:
             jwe = JWEnc().unpack(token)
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         if not self.cek:
             raise Exception("Content Encryption Key is Not Yet Set")
 
-- 
2.43.0


From c90bbab58e444fb07377e1d8f0ea82687a6a74b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:59 +0000
Subject: [PATCH 14/71] fix: JWE.decrypt tries every key and reports all
 failures alike

With RSA-OAEP, AES key wrap and public-only keys a key that did not fit
raised at once, so that the fitting key after it was not tried; ECDH-ES
only looked at the first key. Wrong padding, wrong key size and a wrong
tag were told apart by the type of exception (a padding oracle).
---
 src/jwkest/jwe.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index d99ceea..ef54240 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -869,6 +869,12 @@ class JWE(JWx):
         if alg and alg != _alg:
             raise WrongEncryptionAlgorithm()
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
+        if jwe.headers["enc"] not in SUPPORTED["enc"]:
+            raise NotSupportedAlgorithm(jwe.headers["enc"])
+
         # Find appropriate keys
         if keys:
             keys = self.pick_keys(keys, use="enc", alg=_alg)
@@ -889,7 +895,6 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
         else:
             raise NotSupportedAlgorithm
 
@@ -897,18 +902,22 @@ class JWE(JWx):
             try:
                 msg = decrypter.decrypt(jwe, None, cek=cek)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except Exception:
                 pass
             else:
                 logger.debug("Decrypted message using exiting CEK")
                 return msg
 
         for key in keys:
-            _key = key.encryption_key(alg=_alg, private=False)
+            # Whatever is wrong, the next key may fit. What was wrong must not
+            # be visible to whoever made the message (RFC 7516, section 11.5)
             try:
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
+                _key = key.encryption_key(alg=_alg, private=False)
                 msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except Exception:
                 pass
             else:
                 logger.debug(
-- 
2.43.0


From 829c1a3141671dbc9d9a3ceefe941e77919c9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 15/71] fix: the recipient's public key is enough to encrypt
 with ECDH-ES

---
 src/jwkest/jwe.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ef54240..69eff48 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -834,10 +834,8 @@ class JWE(JWx):
 
         for key in keys:
             if isinstance(encrypter, JWE_EC):
-                if self.enc:
-                    _key = key.encryption_key(alg=self.enc, private=True)
-                else:
-                    _key = key.encryption_key(alg=_alg, private=True)
+                # the public key of the recipient is all that is needed
+                _key = key.encryption_key(alg=_alg, private=False)
             else:
                 _key = key.encryption_key(alg=_alg, private=True)
 
-- 
2.43.0


From e57f55c1aba7453896089209df2aa05f13999ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 16/71] fix: an EC key generated on a curve knows the name of
 the curve

---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..35502ec 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -641,6 +641,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
 
-- 
2.43.0


From e26ce71e40cdfb3f9a2aca0469ddb93ddf9f46c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:20 +0000
Subject: [PATCH 17/71] fix: the curve name of an EC key is text, however the
 key was made

keyrep() left it as octets, so that equal keys were not equal.
---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 35502ec..7a422d6 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -570,7 +570,7 @@ class ECKey(Key):
     def __init__(self, kty="EC", alg="", use="", kid="", key=None,
             crv="", x="", y="", d="", curve=None, **kwargs):
         Key.__init__(self, kty, alg, use, kid, key, **kwargs)
-        self.crv = crv
+        self.crv = as_unicode(crv)
         self.x = x
         self.y = y
         self.d = d
-- 
2.43.0


From b87f8324b2dce3ed1b06e1e616c4f37a5a61c6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:23 +0000
Subject: [PATCH 18/71] fix: octets can be encrypted with AES key wrap too

---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 69eff48..3e43f7c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -416,7 +416,7 @@ class JWE_SYM(JWe):
         :param kwargs: Extra keyword arguments, just ignore for now.
         :return:
         """
-        _msg = self.msg
+        _msg = as_bytes(self.msg)
 
         _args = self._dict
         try:
@@ -444,7 +444,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, _msg.encode(),
+        ctxt, tag, cek = self.enc_setup(_enc, _msg,
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
-- 
2.43.0


From 7356b83fa3f20996230a8edf17e94a5aa620daad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 19/71] fix: compressed content is plain DEFLATE, as RFC 7516
 has it

It was wrapped in the zlib format, which no other implementation reads;
an unknown compression method was ignored when decrypting.
---
 src/jwkest/jwe.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 3e43f7c..4287330 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -250,6 +250,26 @@ def alg2keytype(alg):
         return None
 
 
+def compress(msg, method):
+    if method != "DEF":
+        raise ParameterError("Zip has unknown value: %s" % method)
+
+    # RFC 7516: the DEFLATE format of RFC 1951, that is without zlib header
+    _comp = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION, zlib.DEFLATED,
+                             -zlib.MAX_WBITS)
+    return _comp.compress(msg) + _comp.flush()
+
+
+def decompress(msg, method):
+    if method != "DEF":
+        raise ParameterError("Zip has unknown value: %s" % method)
+
+    try:
+        return zlib.decompress(msg, -zlib.MAX_WBITS)
+    except zlib.error:  # as made by earlier versions of this library
+        return zlib.decompress(msg)
+
+
 # =============================================================================
 
 ENCALGLEN1 = {
@@ -500,10 +520,7 @@ class JWE_RSA(JWe):
 
         _msg = as_bytes(self.msg)
         if "zip" in self:
-            if self["zip"] == "DEF":
-                _msg = zlib.compress(_msg)
-            else:
-                raise ParameterError("Zip has unknown value: %s" % self["zip"])
+            _msg = compress(_msg, self["zip"])
 
         kwarg_cek = cek or None
 
@@ -578,8 +595,8 @@ class JWE_RSA(JWe):
                             jwe.initialization_vector(),
                             jwe.authentication_tag())
 
-        if "zip" in jwe.headers and jwe.headers["zip"] == "DEF":
-            msg = zlib.decompress(msg)
+        if "zip" in jwe.headers:
+            msg = decompress(msg, jwe.headers["zip"])
 
         return msg
 
-- 
2.43.0


From 8a93926044ae2c0738ba95da87fb2d06404a07df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:56 +0000
Subject: [PATCH 20/71] fix: content is compressed when the header says so, for
 all algorithms

With AES key wrap and ECDH-ES the header announced compression but the
content was not compressed, and was not decompressed.
---
 src/jwkest/jwe.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 4287330..3a82f7f 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -437,6 +437,8 @@ class JWE_SYM(JWe):
         :return:
         """
         _msg = as_bytes(self.msg)
+        if "zip" in self:
+            _msg = compress(_msg, self["zip"])
 
         _args = self._dict
         try:
@@ -497,8 +499,8 @@ class JWE_SYM(JWe):
             jwe.b64_protected_header(),
             jwe.initialization_vector(), jwe.authentication_tag())
 
-        if "zip" in self and self["zip"] == "DEF":
-            msg = zlib.decompress(msg)
+        if "zip" in jwe.headers:
+            msg = decompress(msg, jwe.headers["zip"])
 
         return msg
 
@@ -717,6 +719,9 @@ class JWE_EC(JWe):
     def encrypt(self, key, iv="", cek="", **kwargs):
 
         _msg = as_bytes(self.msg)
+        if "zip" in self:
+            _msg = compress(_msg, self["zip"])
+
         _args = self._dict
         try:
             _args["kid"] = kwargs["kid"]
@@ -756,6 +761,9 @@ class JWE_EC(JWe):
                                            self.ctxt,
                                            jwe.b64part[0],
                                            self.iv, self.tag)
+        if "zip" in jwe.headers:
+            msg = decompress(msg, jwe.headers["zip"])
+
         self.msg = msg
         self.msg_valid = True
         return msg
-- 
2.43.0


From df9fdfe3955472af5d4c336627f0975c5bb07fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 21/71] fix: an ECDSA algorithm only uses keys on its own curve

Signing used any EC key, with tokens as a result that nobody can verify.
---
 src/jwkest/jws.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..764e596 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -210,6 +210,14 @@ SIGNER_ALGS = {
 }
 
 
+# The curve each ECDSA algorithm is defined for
+ALG2CRV = {
+    'ES256': P256.name(),
+    'ES384': P384.name(),
+    'ES512': P521.name()
+}
+
+
 def alg2keytype(alg):
     if not alg or alg.lower() == "none":
         return "none"
@@ -415,6 +423,9 @@ class JWx(object):
             if alg and _key.alg and _key.alg != alg:
                 continue
 
+            if alg in ALG2CRV and _key.crv != ALG2CRV[alg]:
+                continue
+
             pkey.append(_key)
 
         return pkey
-- 
2.43.0


From 27be74d11aa92ef2b1b8c2290e5d82964e3deac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:13 +0000
Subject: [PATCH 22/71] fix: a JSON token without signatures is not a verified
 one

---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 764e596..a4db3da 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -666,6 +666,9 @@ class JWS(JWx):
                     signature[key] = _jwss[key]
             _signs = [signature]
 
+        if not _signs:
+            raise FormatError("No signatures")
+
         _claim = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
-- 
2.43.0


From d1953202ee2e0e1378e36363c98cebfc27cdfa9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 23/71] fix: allowing unsecured tokens does not waive an
 expected algorithm

---
 src/jwkest/jws.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index a4db3da..a0d5de2 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -549,6 +549,12 @@ class JWS(JWx):
             _alg = None
         else:
             if _alg is None or _alg.lower() == "none":
+                # an algorithm that was asked for can not be 'none'
+                for expected in [self._dict.get("alg"), sigalg]:
+                    if expected and expected.lower() != "none":
+                        raise SignerAlgError(
+                            "Expected {0} got {1}".format(expected, _alg))
+
                 if allow_none:
                     self.msg = jwt.payload()
                     return {'msg': self.msg}
-- 
2.43.0


From d16ac61b4abb0652f536bc3b78913837393ab4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 24/71] fix: the crit parameter is not stored as x5c

---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index a0d5de2..9587acf 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -300,7 +300,7 @@ class JWx(object):
                     else:
                         self._dict["jwk"] = _val
                 elif key == "x5c" or key == "crit":
-                    self._dict["x5c"] = _val or []
+                    self._dict[key] = _val or []
                 else:
                     self._dict[key] = _val
 
-- 
2.43.0


From cba53272b1a6f130248f4f7e17635da97ea4339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:58 +0000
Subject: [PATCH 25/71] fix: tokens with critical extensions are rejected

Extensions that the recipient does not understand must make it reject
the token (RFC 7515, section 4.1.11), and no extension is supported.
---
 src/jwkest/jwe.py | 5 +++++
 src/jwkest/jws.py | 7 +++++++
 2 files changed, 12 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 3a82f7f..b6a47c7 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -33,6 +33,7 @@ from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
 from jwkest.jwk import intarr2str, SYMKey
 from jwkest.jwk import ECKey
+from jwkest.jwk import HeaderError
 from jwkest.jws import JWx
 from jwkest.jwt import JWT, b64encode_item
 
@@ -895,6 +896,10 @@ class JWE(JWx):
         if len(jwe) != 5:
             raise WrongNumberOfParts(len(jwe))
 
+        # No extensions are supported, so none of them is understood
+        if "crit" in jwe.headers:
+            raise HeaderError("Critical extensions are not supported")
+
         if jwe.headers["enc"] not in SUPPORTED["enc"]:
             raise NotSupportedAlgorithm(jwe.headers["enc"])
 
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 9587acf..0c11b54 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -543,6 +543,10 @@ class JWS(JWx):
 
         self.jwt = jwt
 
+        # No extensions are supported, so none of them is understood
+        if "crit" in jwt.headers:
+            raise HeaderError("Critical extensions are not supported")
+
         try:
             _alg = jwt.headers["alg"]
         except KeyError:
@@ -682,6 +686,9 @@ class JWS(JWx):
                                _sign["signature"].encode()])
 
             unprotected_headers = _sign.get("header", {})
+            if "crit" in unprotected_headers:
+                raise HeaderError("crit must be protected")
+
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
-- 
2.43.0


From a81d91f0e3227e0e5bd50a5f0878014a491e5364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 26/71] fix: an empty key set does not make verification trust
 embedded keys

JWS.verify_json fell back on the key in, or referenced by, the header of
the token itself when the keys given were an empty list or key set.
---
 src/jwkest/jws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 0c11b54..259c526 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -575,7 +575,8 @@ class JWS(JWx):
 
         self["alg"] = _alg
 
-        if keys:
+        # no keys at all is not the same as none to trust
+        if keys is not None:
             _keys = self.pick_keys(keys)
         else:
             _keys = self.pick_keys(self._get_keys())
-- 
2.43.0


From e3553efd4da363f035ea3037412f58d2bc79cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:14 +0000
Subject: [PATCH 27/71] fix: JWS.verify_json keeps to the algorithm the
 instance was made for

It reinitialized the instance with the headers of the token, and forgot
the algorithm given by the caller.
---
 src/jwkest/jws.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 259c526..8622ea3 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -693,9 +693,15 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
-            self.__init__(**all_headers)
+            _alg = self._dict.get("alg")
+            if _alg and _alg != all_headers.get("alg"):
+                raise SignerAlgError("Wrong signing algorithm")
 
-            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
+            _jws = JWS(**all_headers)
+            _tmp = _jws.verify_compact(token, keys, allow_none, sigalg)
+            self.jwt = _jws.jwt
+            self.msg = _jws.msg
+            self.key = getattr(_jws, "key", None)
             if _claim is None:
                 _claim = _tmp
             else:
-- 
2.43.0


From 94d208882e1a6e8c8eb46fe33c3d55fa1e8da26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:30 +0000
Subject: [PATCH 28/71] fix: decisions are not made with assert statements

They disappear when Python optimizes: tokens were then verified with keys
of another key id, unequal keys were equal, and anything was a token.
---
 src/jwkest/jwe.py | 25 ++++++++++---------------
 src/jwkest/jwk.py | 21 ++++++++++-----------
 src/jwkest/jws.py | 41 +++++++++++++++--------------------------
 3 files changed, 35 insertions(+), 52 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b6a47c7..9764c7e 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -324,18 +324,15 @@ class JWEnc(JWT):
         if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
             return True
 
-        try:
-            assert "alg" in self.headers and "enc" in self.headers
-        except AssertionError:
-            return False
-        else:
-            for typ in ["alg", "enc"]:
-                try:
-                    assert self.headers[typ] in SUPPORTED[typ]
-                except AssertionError:
-                    logger.debug("Not supported %s algorithm: %s" % (
-                        typ, self.headers[typ]))
-                    return False
+        for typ in ["alg", "enc"]:
+            if typ not in self.headers:
+                return False
+
+            if self.headers[typ] not in SUPPORTED[typ]:
+                logger.debug("Not supported %s algorithm: %s" % (
+                    typ, self.headers[typ]))
+                return False
+
         return True
 
     def __len__(self):
@@ -588,9 +585,7 @@ class JWE_RSA(JWe):
 
         self["cek"] = cek
         enc = jwe.headers["enc"]
-        try:
-            assert enc in SUPPORTED["enc"]
-        except AssertionError:
+        if enc not in SUPPORTED["enc"]:
             raise NotSupportedAlgorithm(enc)
 
         msg = self._decrypt(enc, cek, jwe.ciphertext(),
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 7a422d6..4315b45 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -340,23 +340,22 @@ class Key(object):
                     return False
 
         if self.kid:
-            try:
-                assert isinstance(self.kid, six.string_types)
-            except AssertionError:
+            if not isinstance(self.kid, six.string_types):
                 raise HeaderError("kid of wrong value type")
         return True
 
     def __eq__(self, other):
-        try:
-            assert isinstance(other, Key)
-            assert set(self.__dict__.keys()) == set(other.__dict__.keys())
+        if not isinstance(other, Key):
+            return False
 
-            for key in self.public_members:
-                assert getattr(other, key) == getattr(self, key)
-        except AssertionError:
+        if set(self.__dict__.keys()) != set(other.__dict__.keys()):
             return False
-        else:
-            return True
+
+        for key in self.public_members:
+            if getattr(other, key) != getattr(self, key):
+                return False
+
+        return True
 
     def keys(self):
         return list(self.to_dict().keys())
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 8622ea3..e33c9e1 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -341,9 +341,7 @@ class JWx(object):
             _header["jwk"] = extra["jwk"].serialize()
 
         if "kid" in self:
-            try:
-                assert isinstance(self["kid"], six.string_types)
-            except AssertionError:
+            if not isinstance(self["kid"], six.string_types):
                 raise HeaderError("kid of wrong value type")
 
         return _header
@@ -409,13 +407,8 @@ class JWx(object):
             logger.debug(
                 "Picked: kid:{}, use:{}, kty:{}".format(
                     _key.kid, _key.use, _key.kty))
-            if _kid:
-                try:
-                    assert _kid == _key.kid
-                except (KeyError, AttributeError):
-                    pass
-                except AssertionError:
-                    continue
+            if _kid and _kid != _key.kid:
+                continue
 
             if use and _key.use and _key.use != use:
                 continue
@@ -704,8 +697,8 @@ class JWS(JWx):
             self.key = getattr(_jws, "key", None)
             if _claim is None:
                 _claim = _tmp
-            else:
-                assert _claim == _tmp
+            elif _claim != _tmp:
+                raise FormatError("Signatures differ in their payload")
 
         return _claim
 
@@ -743,22 +736,18 @@ class JWS(JWx):
         except Exception:
             return False
 
-        try:
-            assert "alg" in jwt.headers
-        except AssertionError:
+        if "alg" not in jwt.headers:
             return False
-        else:
-            if jwt.headers["alg"] is None:
-                jwt.headers["alg"] = "none"
 
-            try:
-                assert jwt.headers["alg"] in SIGNER_ALGS
-            except AssertionError:
-                logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
-                return False
-            else:
-                self.jwt = jwt
-                return True
+        if jwt.headers["alg"] is None:
+            jwt.headers["alg"] = "none"
+
+        if jwt.headers["alg"] not in SIGNER_ALGS:
+            logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
+            return False
+
+        self.jwt = jwt
+        return True
 
 
 def factory(token):
-- 
2.43.0


From 41bef900af05728e667886bae92b261faa02e04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:51 +0000
Subject: [PATCH 29/71] fix: EC coordinates are exported with the full width of
 the curve

Leading zero octets were dropped (one key in 256 for P-256), which is not
valid (RFC 7518, section 6.2.1). Zero could not be encoded at all.
---
 src/jwkest/__init__.py | 12 ++++++++----
 src/jwkest/jwk.py      |  6 +++---
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..ebcb58b 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -102,11 +102,15 @@ def long2intarr(long_int):
     return _bytes
 
 
-def long_to_base64(n):
+def long_to_base64(n, size=1):
+    """
+    Base64url encode an integer, as big endian octets
+
+    :param n: The integer
+    :param size: The least number of octets to use
+    """
     bys = long2intarr(n)
-    data = struct.pack('%sB' % len(bys), *bys)
-    if not len(data):
-        data = '\x00'
+    data = struct.pack('%sB' % len(bys), *bys).rjust(size, b'\x00')
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 4315b45..9ac6521 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -629,12 +629,12 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": long_to_base64(self.x, self.curve.bytes),
+            "y": long_to_base64(self.y, self.curve.bytes)
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = long_to_base64(self.d, self.curve.bytes)
 
         return res
 
-- 
2.43.0


From c3d84621176554dcb3f3bc924fb1f3b4233a3d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:17 +0000
Subject: [PATCH 30/71] fix: base64url_to_long takes text and rejects
 everything not base64url

Characters outside of both alphabets were skipped, and text was refused
with a TypeError, so that Key.verify() was false for every key read from
JSON. A trailing newline passed as base64url.
---
 src/jwkest/__init__.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index ebcb58b..cf5443c 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -132,11 +132,14 @@ def base64url_to_long(data):
     :param data: The base64 string
     :return:
     """
-    _d = base64.urlsafe_b64decode(bytes(data) + b'==')
+    if isinstance(data, six.text_type):
+        data = data.encode("ascii")
+
     # verify that it's base64url encoded and not just base64
     # that is no '+' and '/' characters and not trailing "="s.
-    if [e for e in [b'+', b'/', b'='] if e in data]:
+    if not _b64_re.match(bytes(data)):
         raise ValueError("Not base64url encoded")
+    _d = base64.urlsafe_b64decode(bytes(data) + b'==')
     return intarr2long(struct.unpack('%sB' % len(_d), _d))
 
 
@@ -149,7 +152,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*$")
+_b64_re = re.compile(b"^[A-Za-z0-9_-]*\\Z")
 
 
 def add_padding(b):
-- 
2.43.0


From 9456da077e29905b6e0a75a694fc4da13af777aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:36 +0000
Subject: [PATCH 31/71] fix: b64d raises BadSyntax for wrong padding, as
 documented

---
 src/jwkest/__init__.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index cf5443c..7c1176a 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -184,10 +184,11 @@ def b64d(b):
     if not _b64_re.match(cb):
         raise BadSyntax(cb, "base64-encoded data contains illegal characters")
 
-    if cb == b:
-        b = add_padding(b)
+    padded = add_padding(cb)
+    if b != cb and b != padded:
+        raise BadSyntax(b, "incorrect padding")
 
-    return base64.urlsafe_b64decode(b)
+    return base64.urlsafe_b64decode(padded)
 
 
 def b64e_enc_dec(str, encode="utf-8", decode="ascii"):
-- 
2.43.0


From 75b450ca4f4aaebad39f1f019f0d3a958a766e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:42 +0000
Subject: [PATCH 32/71] fix: long2hexseq takes integers with an odd number of
 hex digits

---
 src/jwkest/__init__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 7c1176a..2b75e42 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -7,7 +7,6 @@ import six
 
 try:
     from builtins import zip
-    from builtins import hex
     from builtins import str
 except ImportError:
     pass
@@ -84,10 +83,8 @@ def intarr2bin(arr):
 
 
 def long2hexseq(l):
-    try:
-        return unhexlify(hex(l)[2:])
-    except TypeError:
-        return unhexlify(hex(l)[2:-1])
+    _hex = '%x' % l
+    return unhexlify(_hex.rjust(len(_hex) + len(_hex) % 2, '0'))
 
 
 def intarr2long(arr):
-- 
2.43.0


From 358b344ce05186d0a800525f989f67ceda50543b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:40 +0000
Subject: [PATCH 33/71] fix: a JWK with members that are not base64url is
 refused

Characters outside of the alphabet were skipped, which gave another key.
---
 src/jwkest/jwk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 9ac6521..ff7449a 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -21,6 +21,7 @@ from jwkest import as_unicode
 from jwkest import base64_to_long
 from jwkest import base64url_to_long
 from jwkest import long_to_base64
+from jwkest import BadSyntax
 from jwkest import JWKESTException
 from jwkest import b64d
 from jwkest import b64e
@@ -404,6 +405,11 @@ def deser(val):
     else:
         _val = val
 
+    try:
+        b64d(_val)  # base64_to_long skips characters that it does not know
+    except BadSyntax as err:
+        raise ValueError(str(err))
+
     return base64_to_long(_val)
 
 
-- 
2.43.0


From 118333048fbe4e7a376b69ebb4ee35f7a69d6173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:04 +0000
Subject: [PATCH 34/71] fix: an EC JWK that is not a key on its curve is
 refused

A point off the curve, or a private key that does not belong to the
point, was accepted; missing coordinates were noticed by chance only.
---
 src/jwkest/jwk.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index ff7449a..3ca7bd2 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -596,7 +596,7 @@ class ECKey(Key):
         of an elliptic curve key initiate an Elliptic Curve.
         """
         if not (self.x and self.y and self.crv):
-            DeSerializationNotPossible()
+            raise DeSerializationNotPossible()
 
         try:
             if not isinstance(self.x, six.integer_types):
@@ -616,6 +616,13 @@ class ECKey(Key):
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
 
+        if not self.curve.on_curve((self.x, self.y)):
+            raise DeSerializationNotPossible("Not a point on the curve")
+        if self.d and not (
+                self.d < self.curve.N and
+                self.curve.public_key_for(self.d) == (self.x, self.y)):
+            raise DeSerializationNotPossible("Not the key to the point")
+
     def get_key(self, private=False, **kwargs):
         if private:
             if self.d:
-- 
2.43.0


From 550053dd7da70fb5bf39a534a79570a5ab1e75b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:25 +0000
Subject: [PATCH 35/71] fix: a JWK without the members of its key type is
 refused

It gave a key object that failed when it was used.
---
 src/jwkest/jwk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 3ca7bd2..c427eeb 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -772,10 +772,16 @@ def keyrep(kspec, enc="utf-8"):
 
     if kspec["kty"] == "RSA":
         item = RSAKey(**_kwargs)
+        if not item.key:
+            raise DeSerializationNotPossible("Missing RSA key parameters")
     elif kspec["kty"] == "oct":
         item = SYMKey(**_kwargs)
+        if not item.key:
+            raise DeSerializationNotPossible("Missing symmetric key value")
     elif kspec["kty"] == "EC":
         item = ECKey(**_kwargs)
+        if not item.curve:
+            raise DeSerializationNotPossible("Missing EC key parameters")
     else:
         item = Key(**_kwargs)
     return item
-- 
2.43.0


From b6fa0b1669c9d564b72d6160b2569c77aa60772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:29 +0000
Subject: [PATCH 36/71] fix: a certificate thumbprint may be octets, as
 keyrep() passes it

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c427eeb..3479e69 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -477,7 +477,7 @@ class RSAKey(Key):
             der_cert = base64.b64decode(self.x5c[0].encode("ascii"))
 
             if self.x5t:  # verify the cert
-                if not b64d(self.x5t.encode("ascii")) == hashlib.sha1(
+                if not b64d(as_bytes(self.x5t)) == hashlib.sha1(
                         der_cert).digest():
                     raise DeSerializationNotPossible(
                         "The thumbprint ('x5t') does not match the "
-- 
2.43.0


From d31b571bf77d7bf3624902d3bfbe1e7a62eaae1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:33 +0000
Subject: [PATCH 37/71] fix: RSA members are not added to the members of every
 key type

Comparing two keys of an unknown type raised an AttributeError.
---
 src/jwkest/jwk.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 3479e69..99e3519 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -417,11 +417,9 @@ class RSAKey(Key):
     """
     JSON Web key representation of a RSA key
     """
-    members = Key.members
-    members.extend(["n", "e", "d", "p", "q"])
+    members = Key.members + ["n", "e", "d", "p", "q"]
     longs = ["n", "e", "d", "p", "q", "dp", "dq", "di", "qi"]
-    public_members = Key.public_members
-    public_members.extend(["n", "e"])
+    public_members = Key.public_members + ["n", "e"]
     required = ['kty', 'n', 'e']
 
     def __init__(self, kty="RSA", alg="", use="", kid="", key=None,
-- 
2.43.0


From 0ec58b53de0e5ace01a502437f93406997c206fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 38/71] fix: symmetric keys made from different octets are not
 equal

Keys are compared by "k", which was only there in keys read from a JWK.
---
 src/jwkest/jwk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 99e3519..6df1a64 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -687,6 +687,9 @@ class SYMKey(Key):
             if isinstance(self.k, str):
                 self.k = self.k.encode("utf-8")
             self.key = b64d(bytes(self.k))
+        if self.key:
+            # public member, by which keys are compared
+            self.k = b64e(self.key)
 
     def deserialize(self):
         if self.k:
-- 
2.43.0


From 8e5424bb7db8861c3ab497f3228e17fc9e30155f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 39/71] fix: thumbprint() does not reorder the list it is given

---
 src/jwkest/jwk.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 6df1a64..f8a7401 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -365,10 +365,9 @@ class Key(object):
         if members is None:
             members = self.required
 
-        members.sort()
         ser = self.serialize()
         _se = []
-        for elem in members:
+        for elem in sorted(members):
             try:
                 _val = ser[elem]
             except KeyError:  # should never happen with the required set
-- 
2.43.0


From fbc6ff5b54f25a6f065c263c69e47722d97aeb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 40/71] fix: the public copy of a key can be used

---
 src/jwkest/jwk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index f8a7401..ed28074 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -957,4 +957,9 @@ def make_public_copy(key):
         else:
             setattr(c, attr, v)
 
+    try:
+        c.deserialize()
+    except DeSerializationNotPossible:  # there was no key material to copy
+        pass
+
     return c
-- 
2.43.0


From c4d86b152c26fd5e45cdc58b8077d8af160b13a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:35 +0000
Subject: [PATCH 41/71] fix: an EC key made with a curve knows the name of the
 curve

---
 src/jwkest/jwk.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index ed28074..eadf010 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -577,6 +577,8 @@ class ECKey(Key):
         self.y = y
         self.d = d
         self.curve = curve
+        if self.curve and not self.crv:
+            self.crv = self.curve.name()
 
         # Initiated guess as to what state the key is in
         # To be usable for encryption/signing/.. it has to be deserialized
-- 
2.43.0


From 80e67130b727abc67669a0e706ccfa699ba70516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:18 +0000
Subject: [PATCH 42/71] fix: recognizing a token works for every text, and for
 one kind only

JSON that is not an object, headers that are not an object and parameters
of unexpected types raised TypeError or AttributeError. The number of
parts decides, so that no token is both signed and encrypted.
---
 src/jwkest/jwe.py | 6 +++++-
 src/jwkest/jws.py | 9 ++++++---
 src/jwkest/jwt.py | 2 ++
 3 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 9764c7e..79f98fa 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -321,7 +321,11 @@ class JWEnc(JWT):
         return b64encode_item(self.headers)
 
     def is_jwe(self):
-        if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
+        if len(self) != 5:
+            return False
+
+        _typ = self.headers.get("typ")
+        if isinstance(_typ, six.string_types) and _typ.lower() == "jwe":
             return True
 
         for typ in ["alg", "enc"]:
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index e33c9e1..fc07ddb 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -717,8 +717,11 @@ class JWS(JWx):
                 jws = jws.decode('utf8')
                 json_jws = json.loads(jws)
 
+            if not isinstance(json_jws, dict):
+                return False
+
             return self._is_json_serialized_jws(json_jws)
-        except ValueError:
+        except (ValueError, RuntimeError):  # RuntimeError if nested too deep
             return self._is_compact_jws(jws)
 
     def _is_json_serialized_jws(self, json_jws):
@@ -736,13 +739,13 @@ class JWS(JWx):
         except Exception:
             return False
 
-        if "alg" not in jwt.headers:
+        if not jwt.valid() or "alg" not in jwt.headers:
             return False
 
         if jwt.headers["alg"] is None:
             jwt.headers["alg"] = "none"
 
-        if jwt.headers["alg"] not in SIGNER_ALGS:
+        if jwt.headers["alg"] not in list(SIGNER_ALGS):
             logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
             return False
 
diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 3240cf8..d747e86 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -68,6 +68,8 @@ class JWT(object):
         self.b64part = part
         self.part = [b64d(p) for p in part]
         self.headers = json.loads(self.part[0].decode())
+        if not isinstance(self.headers, dict):
+            raise BadSyntax(token, "the header is not a JSON object")
         return self
 
     def pack(self, parts=None, headers=None):
-- 
2.43.0


From 5d2b459838e5c25bd9b343f91efff4de3144307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:23 +0000
Subject: [PATCH 43/71] fix: a key set that can not be loaded completely is not
 loaded at all

---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index eadf010..78a74a4 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -816,8 +816,8 @@ class KEYS(object):
         self._keys = []
 
     def load_dict(self, dikt):
-        for kspec in dikt["keys"]:
-            self._keys.append(keyrep(kspec))
+        # all of them, or none if one of them is malformed
+        self._keys.extend([keyrep(kspec) for kspec in dikt["keys"]])
 
     def load_jwks(self, jwks):
         """
-- 
2.43.0


From 2d6dad5ff5313e8e1aae6e81720148a188b03957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:29 +0000
Subject: [PATCH 44/71] fix: keys are not written to the log

---
 src/jwkest/jwe.py | 2 --
 src/jwkest/jwk.py | 3 ---
 2 files changed, 5 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 79f98fa..23ded5d 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -532,8 +532,6 @@ class JWE_RSA(JWe):
         cek, iv = self._generate_key_and_iv(_enc, cek, iv)
         self["cek"] = cek
 
-        logger.debug("cek: %s, iv: %s" % ([c for c in cek], [c for c in iv]))
-
         _encrypt = RSAEncrypter(self.with_digest).encrypt
 
         _alg = self["alg"]
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 78a74a4..2144949 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -730,9 +730,6 @@ class SYMKey(Key):
         else:
             raise JWKException("No support for symmetric keys > 512 bits")
 
-        logger.debug('Symmetric encryption key: {}'.format(
-            as_unicode(b64e(_enc_key))))
-
         return _enc_key
 
 
-- 
2.43.0


From b7003eba85fd10f92cb3603a767f0c55545866e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:02 +0000
Subject: [PATCH 45/71] fix: numbers can be packed, in an object and by
 themselves

---
 src/jwkest/jwt.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index d747e86..bdfece7 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -21,7 +21,8 @@ def split_token(token):
 def b2s_conv(item):
     if isinstance(item, bytes):
         return item.decode("utf-8")
-    elif item is None or isinstance(item, (six.string_types, int, bool)):
+    elif item is None or isinstance(item,
+                                    (six.string_types, int, float, bool)):
         return item
     elif isinstance(item, list):
         return [b2s_conv(i) for i in item]
@@ -36,8 +37,6 @@ def b64encode_item(item):
         return b64e(item)
     elif isinstance(item, str):
         return b64e(item.encode("utf-8"))
-    elif isinstance(item, int):
-        return b64e(item)
     else:
         return b64e(json.dumps(b2s_conv(item),
                                separators=(",", ":")).encode("utf-8"))
-- 
2.43.0


From fedd27e66b064de54f035928d7cdd2a0356f4ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:09 +0000
Subject: [PATCH 46/71] fix: sign_json takes the same payloads as sign_compact

---
 src/jwkest/jws.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index fc07ddb..d38b3fb 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -27,7 +27,6 @@ from jwkest import b64d
 from jwkest import as_unicode
 from jwkest import WrongNumberOfParts
 from jwkest import b64d_enc_dec
-from jwkest import b64e_enc_dec
 from jwkest import b64e
 from jwkest import constant_time_compare
 from jwkest import safe_str_cmp
@@ -628,7 +627,7 @@ class JWS(JWx):
 
             return signature_entry
 
-        res = {"payload": b64e_enc_dec(self.msg, "utf-8", "ascii")}
+        res = {"payload": b64encode_item(self.msg).decode("ascii")}
 
         if headers is None:
             headers = [(dict(alg=self.alg), None)]
-- 
2.43.0


From 59f27b711280009bab8a3e3c7ea67106183c1738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:37 +0000
Subject: [PATCH 47/71] fix: sign_compact does not write to the header
 dictionary it is given

The kid and alg of one token ended up in the next one made with it.
---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index d38b3fb..657ca66 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -458,7 +458,7 @@ class JWS(JWx):
         else:
             keys = self.pick_keys(self._get_keys(), use=use, alg=_alg)
 
-        xargs = protected or {}
+        xargs = dict(protected or {})
         xargs["alg"] = _alg
 
         if keys:
-- 
2.43.0


From ae2de5425d09834a16aad32def57a213d066be5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 48/71] fix: PBKDF2 works on octets and on text, in Python 3
 too

---
 src/jwkest/PBKDF2.py | 46 ++++++++++++++++++++++----------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/jwkest/PBKDF2.py b/src/jwkest/PBKDF2.py
index 7af531b..e0fbd02 100755
--- a/src/jwkest/PBKDF2.py
+++ b/src/jwkest/PBKDF2.py
@@ -70,12 +70,12 @@
 
 __version__ = "1.2"
 
-from builtins import chr
 from builtins import zip
 from builtins import range
 from builtins import object
 
-import string
+import base64
+import six
 from struct import pack
 from binascii import b2a_hex
 from random import randint
@@ -90,11 +90,11 @@ except ImportError:
     import sha as SHA1
 
 def strxor(a, b):
-    return "".join([chr(ord(x) ^ ord(y)) for (x, y) in zip(a, b)])
+    return bytes(bytearray(
+        [x ^ y for (x, y) in zip(bytearray(a), bytearray(b))]))
 
 def b64encode(data, chars="+/"):
-    tt = string.maketrans("+/", chars)
-    return data.encode('base64').replace("\n", "").translate(tt)
+    return base64.b64encode(data, chars.encode("us-ascii")).decode("us-ascii")
 
 class PBKDF2(object):
     """PBKDF2.py : PKCS#5 v2.0 Password-Based Key Derivation
@@ -143,7 +143,7 @@ class PBKDF2(object):
             block = self.__f(i)
             blocks.append(block)
             size += len(block)
-        buf = "".join(blocks)
+        buf = b"".join(blocks)
         retval = buf[:bytes]
         self.__buf = buf[bytes:]
         self.__blockNum = i
@@ -171,13 +171,13 @@ class PBKDF2(object):
         
         # passphrase and salt must be str or unicode (in the latter
         # case, we convert to UTF-8)
-        if isinstance(passphrase, str):
+        if isinstance(passphrase, six.text_type):
             passphrase = passphrase.encode("UTF-8")
-        if not isinstance(passphrase, str):
+        if not isinstance(passphrase, bytes):
             raise TypeError("passphrase must be str or unicode")
-        if isinstance(salt, str):
+        if isinstance(salt, six.text_type):
             salt = salt.encode("UTF-8")
-        if not isinstance(salt, str):
+        if not isinstance(salt, bytes):
             raise TypeError("salt must be str or unicode")
 
         # iterations must be an integer >= 1
@@ -195,7 +195,7 @@ class PBKDF2(object):
         self.__iterations = iterations
         self.__prf = prf
         self.__blockNum = 0
-        self.__buf = ""
+        self.__buf = b""
         self.closed = False
     
     def close(self):
@@ -223,15 +223,15 @@ def crypt(word, salt=None, iterations=None):
         salt = _makesalt()
 
     # salt must be a string or the us-ascii subset of unicode
-    if isinstance(salt, str):
-        salt = salt.encode("us-ascii")
-    if not isinstance(salt, str):
+    if isinstance(salt, bytes):
+        salt = salt.decode("us-ascii")
+    if not isinstance(salt, six.text_type):
         raise TypeError("salt must be a string")
 
     # word must be a string or unicode (in the latter case, we convert to UTF-8)
-    if isinstance(word, str):
+    if isinstance(word, six.text_type):
         word = word.encode("UTF-8")
-    if not isinstance(word, str):
+    if not isinstance(word, bytes):
         raise TypeError("word must be a string or unicode")
 
     # Try to extract the real salt and iteration count from the salt
@@ -271,7 +271,7 @@ def _makesalt():
     
     This function is not suitable for generating cryptographic secrets.
     """
-    binarysalt = "".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
+    binarysalt = b"".join([pack("@H", randint(0, 0xffff)) for i in range(3)])
     return b64encode(binarysalt, "./")
 
 def test_pbkdf2():
@@ -290,22 +290,22 @@ def test_pbkdf2():
 
     # Test 2
     result = PBKDF2("password", "ATHENA.MIT.EDUraeburn", 1200).hexread(32)
-    expected = ("5c08eb61fdf71e4e4ec3cf6ba1f5512b"
-                "a7e52ddbc5e5142f708a31e2e62b1e13")
+    expected = (b"5c08eb61fdf71e4e4ec3cf6ba1f5512b"
+                b"a7e52ddbc5e5142f708a31e2e62b1e13")
     if result != expected:
         raise RuntimeError("self-test failed")
 
     # Test 3
     result = PBKDF2("X"*64, "pass phrase equals block size", 1200).hexread(32)
-    expected = ("139c30c0966bc32ba55fdbf212530ac9"
-                "c5ec59f1a452f5cc9ad940fea0598ed1")
+    expected = (b"139c30c0966bc32ba55fdbf212530ac9"
+                b"c5ec59f1a452f5cc9ad940fea0598ed1")
     if result != expected:
         raise RuntimeError("self-test failed")
     
     # Test 4
     result = PBKDF2("X"*65, "pass phrase exceeds block size", 1200).hexread(32)
-    expected = ("9ccad6d468770cd51b10e6a68721be61"
-                "1a8b4d282601db3b36be9246915ec82a")
+    expected = (b"9ccad6d468770cd51b10e6a68721be61"
+                b"1a8b4d282601db3b36be9246915ec82a")
     if result != expected:
         raise RuntimeError("self-test failed")
     
-- 
2.43.0


From 1def7a5366b5922eca8202f0f55e03bf02b56aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:29 +0000
Subject: [PATCH 49/71] fix: compressed curve points can be uncompressed

---
 src/jwkest/ecc.py      |  5 ++++-
 src/jwkest/elliptic.py | 11 ++++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 58d64fe..24e2b30 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -60,7 +60,10 @@ class NISTEllipticCurve(object):
         return p[0], sign_bit(p)
 
     def uncompress(self, p):
-        return p[0], y_from_x(p[0], self.a, self.b, self.p, p[1])
+        y = y_from_x(p[0], self.a, self.b, self.p, p[1])
+        if y is None:
+            raise ECCException("Not the x coordinate of a point on the curve")
+        return p[0], y
 
     # Return a new key pair for this curve
     def key_pair(self):
diff --git a/src/jwkest/elliptic.py b/src/jwkest/elliptic.py
index 4c109db..8a5c01f 100755
--- a/src/jwkest/elliptic.py
+++ b/src/jwkest/elliptic.py
@@ -330,7 +330,12 @@ def muladdp(p, q, n, p1, c1, p2, c2):
 
 # POINT COMPRESSION ------------------------------------------------------------
 
-# Compute the square root modulo n
+# Compute the square root modulo n, for a prime n = 3 (mod 4) which goes for all
+# curves in curves.py
+def sqrt(a, n):
+    """Return a square root of a modulo n, None if there is none"""
+    y = pow(a, (n + 1) // 4, n)
+    return y if (y * y - a) % n == 0 else None
 
 
 # Determine the sign-bit of a point allowing to reconstruct y-coordinates
@@ -346,6 +351,10 @@ def y_from_x(x, p, q, n, sign):
 
     # optimized form of (x**3 - p*x - q) % n
     a = (((x * x) % n - p) * x - q) % n
+    y = sqrt(a, n)
+    if y and y % 2 != sign:
+        y = n - y
+    return y
 
 
 if __name__ == "__main__":
-- 
2.43.0


From a9c989c53f54f98124b566416a9b55d207a38c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:34 +0000
Subject: [PATCH 50/71] fix: mal-formed padding of CBC-HMAC content is always
 refused

---
 src/jwkest/extra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 4a98c5d..31a2cd3 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -50,10 +50,10 @@ def pkcs5trim(x):
     :type  x: bytes
     :rtype: bytes
     """
-    n = unpack('B', x[-1:])[0]
     # Should never have more than 16 bytes of padding
     # ... since we're only using this with AES
-    if n > 16:
+    n = unpack('B', x[-1:])[0] if x else 0
+    if not 1 <= n <= 16 or x[-n:] != pack('B', n) * n:
         raise Exception("Mal-formed PKCS#5 padding")
     return x[:-n]
 
-- 
2.43.0


From fad8fa86aaba86f2bc6c0b5c8280d9c6cb1c898b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 51/71] fix: jwk_create runs, and its JWK file holds the public
 key only

---
 script/jwk_create.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/script/jwk_create.py b/script/jwk_create.py
index bd71280..17108dd 100755
--- a/script/jwk_create.py
+++ b/script/jwk_create.py
@@ -13,17 +13,16 @@ def create_and_store_rsa_key_pair(name="pyoidc", path=".", size=1024):
 
     keyfile = os.path.join(path, name)
 
-    f = open("%s.key" % keyfile, "w")
+    f = open("%s.key" % keyfile, "wb")
     f.write(key.exportKey("PEM"))
     f.close()
-    f = open("%s.pub" % keyfile, "w")
+    f = open("%s.pub" % keyfile, "wb")
     f.write(key.publickey().exportKey("PEM"))
     f.close()
 
     rsa_key = RSAKey(key=key)
-    rsa_key.serialize()
     # This will create JWK from the public RSA key
-    jwk_spec = json.dumps(rsa_key.to_dict(), "enc")
+    jwk_spec = json.dumps(rsa_key.serialize())
     f = open(keyfile + ".jwk", "w")
     f.write(str(jwk_spec))
     f.close()
-- 
2.43.0


From 82be490c48c713785ad2144538236fad510d709b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 52/71] fix: jwk_export uses KEYS, dump_jwks() is gone

---
 script/jwk_export.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/script/jwk_export.py b/script/jwk_export.py
index 8b49bb6..35de35d 100755
--- a/script/jwk_export.py
+++ b/script/jwk_export.py
@@ -1,9 +1,9 @@
 #!/usr/bin/env python
 import os
 import argparse
+from jwkest.jwk import KEYS
 from jwkest.jwk import RSAKey
 from jwkest.jwk import rsa_load
-from jwkest.jwk import dump_jwks
 
 __author__ = 'rolandh'
 
@@ -16,10 +16,11 @@ parser.add_argument('-k', dest="key", help="Key file")
 
 args = parser.parse_args()
 
-rsa_key = RSAKey(key=rsa_load(args.key))
+keys = KEYS()
+keys.append(RSAKey(key=rsa_load(args.key)))
 
 keyfile = os.path.join(args.path, args.name)
 
 f = open(keyfile + ".jwk", "w")
-f.write(dump_jwks([rsa_key]))
+f.write(keys.dump_jwks())
 f.close()
-- 
2.43.0


From 7acf3220f2830ec3231ca8edf51b073e548c17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 53/71] fix: jwkutil -d decrypts

---
 script/jwkutil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/script/jwkutil.py b/script/jwkutil.py
index c428686..19a3320 100755
--- a/script/jwkutil.py
+++ b/script/jwkutil.py
@@ -2,6 +2,7 @@
 import json
 import logging
 import sys
+from jwkest import as_unicode
 from jwkest.jwe import JWE
 
 __author__ = 'rohe0002'
@@ -143,12 +144,14 @@ if __name__ == "__main__":
         print(encrypt(message, keys, args.encalg, args.encenc))
     else:
         if args.decrypt:
-            _msg, _res = decrypt(message, keys)
+            _msg = as_unicode(decrypt(message, keys))
         else:
             _msg = message
 
         if args.verify:
             print(verify(_msg, keys))
+        elif args.decrypt:
+            print(_msg)
 
 # -e -J edmund.jwks -f text.json -E "A128CBC-HS256" -A "RSA1_5" -l ju.log
 # -d -r op.key -f edmund.jwe -i a0
-- 
2.43.0


From 4edbe288dfef1e2aeda8d87336a4afc00a51e120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:57 +0000
Subject: [PATCH 54/71] fix: jwenc and jwdecrypt get usable keys from X.509
 files and URLs, decrypt to text

---
 script/jwdecrypt.py | 8 +++++---
 script/jwenc.py     | 4 ++--
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/script/jwdecrypt.py b/script/jwdecrypt.py
index 499bec1..972b71e 100755
--- a/script/jwdecrypt.py
+++ b/script/jwdecrypt.py
@@ -5,6 +5,7 @@ __author__ = 'rohe0002'
 
 import argparse
 import requests
+from jwkest import as_unicode
 from jwkest.jwk import load_jwks_from_url, RSAKey
 from jwkest.jwk import rsa_load
 from jwkest.jwk import load_x509_cert
@@ -56,9 +57,10 @@ if __name__ == "__main__":
     elif args.jwk_file:
         keys = load_jwks(open(args.jwk_file).read())
     elif args.x509_url:
-        keys = load_x509_cert(args.x509_url, {})
+        # load_x509_cert returns list of 2-tuples
+        keys = [RSAKey(key=x) for y, x in load_x509_cert(args.x509_url, {})]
     elif args.x509_file:
-        keys = [import_rsa_key_from_file(args.x509_file)]
+        keys = [RSAKey(key=import_rsa_key_from_file(args.x509_file))]
     elif args.rsa_file:
         key = rsa_load(args.rsa_file)
         rsa_key = RSAKey(key=key)
@@ -75,4 +77,4 @@ if __name__ == "__main__":
         msg = args.message
 
     jwe = JWE()
-    print(jwe.decrypt(msg, keys))
+    print(as_unicode(jwe.decrypt(msg, keys)))
diff --git a/script/jwenc.py b/script/jwenc.py
index 5235258..5aa8b5e 100755
--- a/script/jwenc.py
+++ b/script/jwenc.py
@@ -68,8 +68,8 @@ if __name__ == "__main__":
         keys = load_jwks(open(args.jwk_file).read())
     elif args.x509_url:
         # load_x509_cert returns list of 2-tuples
-        keys = [RSAKey(key=x) for x, y in load_x509_cert(lrequest,
-                                                         args.x509_url)]
+        keys = [RSAKey(key=x) for y, x in load_x509_cert(args.x509_url,
+                                                         {})]
         for key in keys:
             key.serialize()
     elif args.x509_file:
-- 
2.43.0


From 26088fe300f586861086f13751f02d64856649a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 55/71] fix: an AES-GCM IV is not reused with the same key,
 also not after another one

---
 src/jwkest/aes_gcm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index 1083d0f..443d8c7 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -70,7 +70,7 @@ class InvalidTagException(Exception):
 # Galois/Counter Mode with AES-128 and 96-bit IV
 class AES_GCM(object):
     def __init__(self, master_key):
-        self.prev_init_value = None
+        self.used_init_values = set()
         self._master_key = ""
         self._aes_ecb = None
         self._auth_key = 0
@@ -98,7 +98,7 @@ class AES_GCM(object):
             table.append(tuple(row))
         self._pre_table = tuple(table)
 
-        self.prev_init_value = None  # reset
+        self.used_init_values = set()  # reset
 
     def __times_auth_key(self, val):
         res = 0
@@ -135,10 +135,10 @@ class AES_GCM(object):
     def encrypt(self, init_value, plaintext, auth_data=b''):
         if init_value >= (1 << 96):
             raise InvalidInputException('IV should be 96-bit')
-        # a naive checking for IV reuse
-        if init_value == self.prev_init_value:
+        # no IV may be used twice with the same key
+        if init_value in self.used_init_values:
             raise InvalidInputException('IV must not be reused!')
-        self.prev_init_value = init_value
+        self.used_init_values.add(init_value)
 
         len_plaintext = len(plaintext)
         # len_auth_data = len(auth_data)
-- 
2.43.0


From c21d4ed50ae5f76e84e71aaf461e779a8d6ec89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:48 +0000
Subject: [PATCH 56/71] fix: a JWK with a private member that is zero is
 refused

---
 src/jwkest/jwk.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 2144949..8fd8b47 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -456,6 +456,8 @@ class RSAKey(Key):
                         except Exception:
                             raise
                         else:
+                            if not val:
+                                raise ValueError("'%s' is zero" % param)
                             setattr(self, param, val)
 
                 lst = [self.n, self.e]
@@ -612,6 +614,8 @@ class ECKey(Key):
             try:
                 if isinstance(self.d, six.string_types):
                     self.d = deser(self.d)
+                if not self.d:
+                    raise ValueError("'d' is zero")
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
 
-- 
2.43.0


From 98d7f24f9d422ca7c904a077abab3fbcf63f6f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:26 +0000
Subject: [PATCH 57/71] fix: an EC JWK with a negative private scalar is
 refused

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 8fd8b47..f5c5207 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -622,7 +622,7 @@ class ECKey(Key):
         if not self.curve.on_curve((self.x, self.y)):
             raise DeSerializationNotPossible("Not a point on the curve")
         if self.d and not (
-                self.d < self.curve.N and
+                0 < self.d < self.curve.N and
                 self.curve.public_key_for(self.d) == (self.x, self.y)):
             raise DeSerializationNotPossible("Not the key to the point")
 
-- 
2.43.0


From 8a665bde9ec04f038b95b83dd0e731d5f6c580e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:51 +0000
Subject: [PATCH 58/71] fix: compression that is asked for is not dropped, for
 all algorithms

JWE_SYM and JWE_EC did not take the zip parameter.
---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 23ded5d..b28ca90 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -427,7 +427,7 @@ class JWe(JWx):
 
 class JWE_SYM(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def encrypt(self, key, iv="", cek="", **kwargs):
         """
@@ -603,7 +603,7 @@ class JWE_RSA(JWe):
 
 class JWE_EC(JWe):
     args = JWe.args[:]
-    args.append("enc")
+    args.extend(["enc", "zip"])
 
     def enc_setup(self, msg, auth_data, key=None, **kwargs):
 
-- 
2.43.0


From 3eb578ce8c0f1a7981c7791f606d6153a621ea36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 59/71] fix: equal keys have equal hashes, whatever was called
 before

---
 src/jwkest/jwk.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index f5c5207..95c2ff1 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -390,11 +390,12 @@ class Key(object):
         self._hash = int(binascii.hexlify(_tp), 16)
 
     def __hash__(self):
-        if not self._hash:
-            if self.kid:
-                self.get_hash()
-            else:
-                self.add_kid()
+        # not what an earlier get_hash() left behind: that may be made with
+        # another hash function or from other key material
+        if self.kid:
+            self.get_hash()
+        else:
+            self.add_kid()
         return self._hash
 
 
-- 
2.43.0


From 4937f410f5d3e9905b935c6ee3993630fc2f8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:16 +0000
Subject: [PATCH 60/71] fix: a key of unknown type is not dumped as null

---
 src/jwkest/jwk.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 95c2ff1..54c51c1 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -312,7 +312,8 @@ class Key(object):
         map key characteristics into attribute values that can be used
         to create an on-the-wire representation of the key
         """
-        pass
+        # nothing is known about the key itself, so only what all types have
+        return self.common()
 
     def get_key(self, **kwargs):
         return self.key
-- 
2.43.0


From 144482295c822f3343f17fdaf8e6c145ab2e8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:17 +0000
Subject: [PATCH 61/71] fix: a key type that is not a text is refused

---
 src/jwkest/jwk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 54c51c1..13defcf 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -765,6 +765,9 @@ def keyrep(kspec, enc="utf-8"):
      the encoding is utf-8.
     :return: Key instance
     """
+    if not isinstance(kspec["kty"], (six.string_types, bytes)):
+        raise DeSerializationNotPossible("kty of wrong value type")
+
     if enc:
         _kwargs = {}
         for key, val in kspec.items():
-- 
2.43.0


From 54571643dc507d8144e6c9215f3823494aaf39bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:02 +0000
Subject: [PATCH 62/71] fix: malformed private key members are not repeated in
 the error message

---
 src/jwkest/jwk.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 13defcf..15652e8 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -409,9 +409,12 @@ def deser(val):
     try:
         b64d(_val)  # base64_to_long skips characters that it does not know
     except BadSyntax as err:
-        raise ValueError(str(err))
+        msg = err.msg
+    else:
+        return base64_to_long(_val)
 
-    return base64_to_long(_val)
+    # The value may be a private one: not to be seen in any error message
+    raise ValueError(msg)
 
 
 class RSAKey(Key):
-- 
2.43.0


From 3b6ee6852f2b3330102829686fb3bd3e576ec8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:06 +0000
Subject: [PATCH 63/71] fix: a malformed shared secret is not repeated in the
 error message

---
 src/jwkest/jwk.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 15652e8..596ba02 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -696,16 +696,24 @@ class SYMKey(Key):
         if not self.key and self.k:
             if isinstance(self.k, str):
                 self.k = self.k.encode("utf-8")
-            self.key = b64d(bytes(self.k))
+            self.deserialize()
         if self.key:
             # public member, by which keys are compared
             self.k = b64e(self.key)
 
     def deserialize(self):
-        if self.k:
+        if not self.k:
+            raise DeSerializationNotPossible()
+
+        try:
             self.key = b64d(bytes(self.k))
+        except BadSyntax as err:
+            msg = err.msg
         else:
-            raise DeSerializationNotPossible()
+            return
+
+        # without the secret in the error message
+        raise BadSyntax("k", msg)
 
     def serialize(self, private=True):
         res = self.common()
-- 
2.43.0


From 384b7851b0aff88ba17a3e720dbcabb5d109f085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:02 +0000
Subject: [PATCH 64/71] fix: the content key of an earlier message is not used
 for another

---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b28ca90..db9b05f 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -841,8 +841,10 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             encrypter = JWE_EC(**self._dict)
+            # A content key left behind by an earlier message is not reused
+            _args = dict([(k, v) for k, v in self._dict.items() if k != "cek"])
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0], **_args)
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0


From 944e5fb84e29e8399673226e93b119834f47dff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 65/71] fix: an ephemeral key that is not an EC key is refused

---
 src/jwkest/jwe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index db9b05f..61fa1ee 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -679,6 +679,8 @@ class JWE_EC(JWe):
             raise Exception(
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
+        if self.headers["epk"].get("kty") != "EC":
+            raise DecryptionFailed("Ephemeral Public Key is not an EC key")
         epubkey = ECKey(**self.headers["epk"])
         if epubkey.curve.name() != key.curve.name():
             raise DecryptionFailed("Ephemeral Public Key on the wrong curve")
-- 
2.43.0


From a50732259b81c52f7041de58903e1a08da96b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:06 +0000
Subject: [PATCH 66/71] fix: a header that is nested too deep is a syntax error

---
 src/jwkest/jwt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index bdfece7..5c60b72 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -66,7 +66,10 @@ class JWT(object):
         part = split_token(token)
         self.b64part = part
         self.part = [b64d(p) for p in part]
-        self.headers = json.loads(self.part[0].decode())
+        try:
+            self.headers = json.loads(self.part[0].decode())
+        except RuntimeError:
+            raise BadSyntax(token, "the header is nested too deep")
         if not isinstance(self.headers, dict):
             raise BadSyntax(token, "the header is not a JSON object")
         return self
-- 
2.43.0


From 6687f00b06efe7ab2c2c4f28e01b8a145bdfea7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:09 +0000
Subject: [PATCH 67/71] fix: the padding of a base64 certificate is not
 stripped

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 596ba02..1a222f5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -140,7 +140,7 @@ def der_cert2rsa(der):
     @param der: DER-encoded certificate
     @return: RSA instance
     """
-    pem = re.sub(r'[^A-Za-z0-9+/]', '', der)
+    pem = re.sub(r'[^A-Za-z0-9+/=]', '', der)
     return der2rsa(base64.b64decode(pem))
 
 
-- 
2.43.0


From 87f9757bdb79c338bb7a8e18833450cb9161a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:19 +0000
Subject: [PATCH 68/71] fix: key_eq compares RSA keys instead of raising a
 TypeError

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 1a222f5..5ba172f 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -189,7 +189,7 @@ def key_eq(key1, key2):
     if type(key1) == type(key2):
         if isinstance(key1, str):
             return key1 == key2
-        elif isinstance(key1, RSA):
+        elif isinstance(key1, RsaKey):
             return rsa_eq(key1, key2)
 
     return False
-- 
2.43.0


From 372279d7191b4fc21f6f9668ed742b53096ef6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:50 +0000
Subject: [PATCH 69/71] fix: the hash of a key does not depend on what other
 threads do with it

---
 src/jwkest/jwk.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 5ba172f..215fc78 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -382,8 +382,9 @@ class Key(object):
     def get_hash(self, hash_function=None):
         if not hash_function:
             hash_function = 'SHA-256'
-        self._hash = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
-        return self._hash
+        _hash = int(binascii.hexlify(self.thumbprint(hash_function)), 16)
+        self._hash = _hash
+        return _hash
 
     def add_kid(self):
         _tp = self.thumbprint('SHA-256')
@@ -392,12 +393,10 @@ class Key(object):
 
     def __hash__(self):
         # not what an earlier get_hash() left behind: that may be made with
-        # another hash function or from other key material
-        if self.kid:
-            self.get_hash()
-        else:
+        # another hash function, from other key material or in another thread
+        if not self.kid:
             self.add_kid()
-        return self._hash
+        return self.get_hash()
 
 
 def deser(val):
-- 
2.43.0


From 5d24a6cb4b90e2a9be3d89a58685b002b098d54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:43 +0000
Subject: [PATCH 70/71] fix: a JWKS that comes without a charset is UTF-8, not
 what the octets look like

---
 src/jwkest/jwk.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 215fc78..17b8595 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -886,6 +886,9 @@ class KEYS(object):
             kwargs['verify'] = True
         r = request("GET", url, allow_redirects=True, **kwargs)
         if r.status_code == 200:
+            if 'charset' not in r.headers.get('content-type', '').lower():
+                # No guessing, a JWKS is UTF-8 (RFC 7517, section 8.5)
+                r.encoding = 'utf-8'
             return self.load_jwks(r.text)
         else:
             raise Exception("HTTP Get error: %s" % r.status_code)
-- 
2.43.0


From b6ff6d325fafb9b7a44a4c3c8e057667a39f6422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:24 +0000
Subject: [PATCH 71/71] fix: a version 1 certificate (without the version
 field) yields its RSA key

---
 src/jwkest/jwk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 17b8595..4278485 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -116,7 +116,9 @@ def der2rsa(der):
     cert.decode(der)
     tbs_certificate = DerSequence()
     tbs_certificate.decode(cert[0])
-    subject_public_key_info = tbs_certificate[6]
+    # The version comes first, a version 1 certificate does not tell it
+    _has_version = not isinstance(tbs_certificate[0], six.integer_types)
+    subject_public_key_info = tbs_certificate[6 if _has_version else 5]
 
     # Initialize RSA key
     return RSA.importKey(subject_public_key_info)
-- 
2.43.0

