From 87b2a2375c096e862860da887cc495b930b0eca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 01/44] fix: b64d raises BadSyntax for a trailing newline and
 for a wrong number of pad characters

---
 src/jwkest/__init__.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 97f197b..acf3daa 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -145,7 +145,7 @@ def b64e(b):
     return base64.urlsafe_b64encode(b).rstrip(b"=")
 
 
-_b64_re = re.compile(b"^[A-Za-z0-9_-]*$")
+_b64_re = re.compile(b"^[A-Za-z0-9_-]*\\Z")
 
 
 def add_padding(b):
@@ -177,10 +177,7 @@ def b64d(b):
     if not _b64_re.match(cb):
         raise BadSyntax(cb, "base64-encoded data contains illegal characters")
 
-    if cb == b:
-        b = add_padding(b)
-
-    return base64.urlsafe_b64decode(b)
+    return base64.urlsafe_b64decode(add_padding(cb))
 
 
 def b64e_enc_dec(str, encode="utf-8", decode="ascii"):
-- 
2.43.0


From 42f764c89ac3895b9d76babecbaa9896025a6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:28 +0000
Subject: [PATCH 02/44] fix: long_to_base64(0) gives AA instead of raising
 TypeError

---
 src/jwkest/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index acf3daa..fb56c5b 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -106,7 +106,7 @@ def long_to_base64(n):
     bys = long2intarr(n)
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
-        data = '\x00'
+        data = b'\x00'
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
-- 
2.43.0


From 8b0e40257024a26359ba9c857a997d4bb68151f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 03/44] fix: long2hexseq handles numbers with an odd number of
 hex digits

---
 src/jwkest/__init__.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index fb56c5b..8034581 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -84,10 +84,8 @@ def intarr2bin(arr):
 
 
 def long2hexseq(l):
-    try:
-        return unhexlify(hex(l)[2:])
-    except TypeError:
-        return unhexlify(hex(l)[2:-1])
+    _hex = "%x" % l
+    return unhexlify(_hex.zfill(len(_hex) + len(_hex) % 2))
 
 
 def intarr2long(arr):
-- 
2.43.0


From e51134cd807a6d81510ab2cdb7f106018857ce0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 04/44] fix: base64url_to_long accepts text and refuses every
 character outside base64url

---
 src/jwkest/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 8034581..3381205 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -126,11 +126,14 @@ def base64url_to_long(data):
     :param data: The base64 string
     :return:
     """
-    _d = base64.urlsafe_b64decode(bytes(data) + b'==')
+    if isinstance(data, six.text_type):
+        data = data.encode("ascii")
+
     # verify that it's base64url encoded and not just base64
     # that is no '+' and '/' characters and not trailing "="s.
-    if [e for e in [b'+', b'/', b'='] if e in data]:
+    if not _b64_re.match(data):
         raise ValueError("Not base64url encoded")
+    _d = base64.urlsafe_b64decode(bytes(data) + b'==')
     return intarr2long(struct.unpack('%sB' % len(_d), _d))
 
 
-- 
2.43.0


From 9f4f60e1a55234708e8f8437b0b532df68e891c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:42 +0000
Subject: [PATCH 05/44] fix: EC keys loaded from a JWK keep a usable private
 value and curve name

keyrep() hands byte strings to ECKey, which left 'd' undecoded (signing with
and serialising such a key failed) and 'crv' as bytes (never equal to the
same key built otherwise).
---
 src/jwkest/jwk.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 32891c7..e8cee28 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -570,7 +570,7 @@ class ECKey(Key):
     def __init__(self, kty="EC", alg="", use="", kid="", key=None,
             crv="", x="", y="", d="", curve=None, **kwargs):
         Key.__init__(self, kty, alg, use, kid, key, **kwargs)
-        self.crv = crv
+        self.crv = as_unicode(crv)
         self.x = x
         self.y = y
         self.d = d
@@ -606,7 +606,7 @@ class ECKey(Key):
         self.curve = NISTEllipticCurve.by_name(self.crv)
         if self.d:
             try:
-                if isinstance(self.d, six.string_types):
+                if not isinstance(self.d, six.integer_types):
                     self.d = deser(self.d)
             except ValueError as err:
                 raise DeSerializationNotPossible(str(err))
-- 
2.43.0


From 7f8006f21881268333c9e0d52de158b78938a7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:49 +0000
Subject: [PATCH 06/44] fix: symmetric keys are equal only if their key values
 are

---
 src/jwkest/jwk.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index e8cee28..368223f 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -683,6 +683,15 @@ class SYMKey(Key):
         else:
             raise DeSerializationNotPossible()
 
+    def __eq__(self, other):
+        # 'k' is only set on keys read from a JWK, the key value always is
+        if not isinstance(other, SYMKey):
+            return False
+        return (self.kty, self.alg, self.use, self.kid, self.key) == (
+            other.kty, other.alg, other.use, other.kid, other.key)
+
+    __hash__ = Key.__hash__
+
     def serialize(self, private=True):
         res = self.common()
         res["k"] = as_unicode(b64e(bytes(self.key)))
-- 
2.43.0


From 1dbf119480d497621bceacce424b2df8f5dbd75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:27 +0000
Subject: [PATCH 07/44] fix: EC key members are serialised with the full octet
 length of the curve

RFC 7518 sections 6.2.1.2, 6.2.1.3 and 6.2.2.1.
---
 src/jwkest/__init__.py | 9 ++++++++-
 src/jwkest/jwk.py      | 6 +++---
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/__init__.py b/src/jwkest/__init__.py
index 3381205..81d871a 100644
--- a/src/jwkest/__init__.py
+++ b/src/jwkest/__init__.py
@@ -100,11 +100,18 @@ def long2intarr(long_int):
     return _bytes
 
 
-def long_to_base64(n):
+def long_to_base64(n, size=0):
+    """
+    Base64url encoding of the big endian octets of a number
+
+    :param n: A non-negative number
+    :param size: The least number of octets, shorter ones get leading zeros
+    """
     bys = long2intarr(n)
     data = struct.pack('%sB' % len(bys), *bys)
     if not len(data):
         data = b'\x00'
+    data = data.rjust(size, b'\x00')
     s = base64.urlsafe_b64encode(data).rstrip(b'=')
     return s.decode("ascii")
 
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 368223f..cced57f 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -630,12 +630,12 @@ class ECKey(Key):
         res = self.common()
         res.update({
             "crv": self.curve.name(),
-            "x": long_to_base64(self.x),
-            "y": long_to_base64(self.y)
+            "x": long_to_base64(self.x, self.curve.bytes),
+            "y": long_to_base64(self.y, self.curve.bytes)
         })
 
         if private and self.d:
-            res["d"] = long_to_base64(self.d)
+            res["d"] = long_to_base64(self.d, self.curve.bytes)
 
         return res
 
-- 
2.43.0


From 08b672caa2aa2aabe4aff1b35d6d0b0065cedd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 08/44] fix: a JWK whose point is not on its curve is refused

It was accepted, also as the 'epk' of a JWE, where it lets the sender learn
the receiver's private key (invalid curve attack).
---
 src/jwkest/jwk.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index cced57f..00120bd 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -26,6 +26,7 @@ from jwkest import b64d
 from jwkest import b64e
 from jwkest import UnknownAlgorithm
 from jwkest.ecc import NISTEllipticCurve
+from jwkest.elliptic import element
 from jwkest.jwt import b2s_conv
 
 if sys.version > '3':
@@ -604,6 +605,11 @@ class ECKey(Key):
             raise DeSerializationNotPossible("%s" % err)
 
         self.curve = NISTEllipticCurve.by_name(self.crv)
+        if not (self.x < self.curve.p and self.y < self.curve.p and
+                element((self.x, self.y), self.curve.a, self.curve.b,
+                        self.curve.p)):
+            raise DeSerializationNotPossible(
+                "The point is not on the curve {}".format(self.curve.name()))
         if self.d:
             try:
                 if not isinstance(self.d, six.integer_types):
-- 
2.43.0


From 603d83a857ea08fd9eeae5bc878baaa432450d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:42 +0000
Subject: [PATCH 09/44] fix: checks on keys and headers do not depend on assert

With python -O the kid of a key was ignored, any two keys were equal, and
wrongly typed headers were accepted.
---
 src/jwkest/jwe.py | 22 ++++++++--------------
 src/jwkest/jwk.py | 24 ++++++++++--------------
 src/jwkest/jws.py | 37 +++++++++++++++----------------------
 3 files changed, 33 insertions(+), 50 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a2e5885..eae02c5 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -303,18 +303,14 @@ class JWEnc(JWT):
         if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
             return True
 
-        try:
-            assert "alg" in self.headers and "enc" in self.headers
-        except AssertionError:
+        if "alg" not in self.headers or "enc" not in self.headers:
             return False
-        else:
-            for typ in ["alg", "enc"]:
-                try:
-                    assert self.headers[typ] in SUPPORTED[typ]
-                except AssertionError:
-                    logger.debug("Not supported %s algorithm: %s" % (
-                        typ, self.headers[typ]))
-                    return False
+
+        for typ in ["alg", "enc"]:
+            if self.headers[typ] not in SUPPORTED[typ]:
+                logger.debug("Not supported %s algorithm: %s" % (
+                    typ, self.headers[typ]))
+                return False
         return True
 
     def __len__(self):
@@ -558,9 +554,7 @@ class JWE_RSA(JWe):
 
         self["cek"] = cek
         enc = jwe.headers["enc"]
-        try:
-            assert enc in SUPPORTED["enc"]
-        except AssertionError:
+        if enc not in SUPPORTED["enc"]:
             raise NotSupportedAlgorithm(enc)
 
         msg = self._decrypt(enc, cek, jwe.ciphertext(),
diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index 00120bd..f73c1cc 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -340,24 +340,20 @@ class Key(object):
                 if [e for e in ['+', '/', '='] if e in item]:
                     return False
 
-        if self.kid:
-            try:
-                assert isinstance(self.kid, six.string_types)
-            except AssertionError:
-                raise HeaderError("kid of wrong value type")
+        if self.kid and not isinstance(self.kid, six.string_types):
+            raise HeaderError("kid of wrong value type")
         return True
 
     def __eq__(self, other):
-        try:
-            assert isinstance(other, Key)
-            assert set(self.__dict__.keys()) == set(other.__dict__.keys())
-
-            for key in self.public_members:
-                assert getattr(other, key) == getattr(self, key)
-        except AssertionError:
+        if not isinstance(other, Key):
             return False
-        else:
-            return True
+        if set(self.__dict__.keys()) != set(other.__dict__.keys()):
+            return False
+
+        for key in self.public_members:
+            if getattr(other, key) != getattr(self, key):
+                return False
+        return True
 
     def keys(self):
         return list(self.to_dict().keys())
diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 87e3038..6c2952b 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -333,9 +333,7 @@ class JWx(object):
             _header["jwk"] = extra["jwk"].serialize()
 
         if "kid" in self:
-            try:
-                assert isinstance(self["kid"], six.string_types)
-            except AssertionError:
+            if not isinstance(self["kid"], six.string_types):
                 raise HeaderError("kid of wrong value type")
 
         return _header
@@ -403,11 +401,10 @@ class JWx(object):
                     _key.kid, _key.use, _key.kty))
             if _kid:
                 try:
-                    assert _kid == _key.kid
+                    if _kid != _key.kid:
+                        continue
                 except (KeyError, AttributeError):
                     pass
-                except AssertionError:
-                    continue
 
             if use and _key.use and _key.use != use:
                 continue
@@ -670,8 +667,8 @@ class JWS(JWx):
             _tmp = self.verify_compact(token, keys, allow_none, sigalg)
             if _claim is None:
                 _claim = _tmp
-            else:
-                assert _claim == _tmp
+            elif _claim != _tmp:
+                raise FormatError("The signatures have different payloads")
 
         return _claim
 
@@ -709,22 +706,18 @@ class JWS(JWx):
         except Exception:
             return False
 
-        try:
-            assert "alg" in jwt.headers
-        except AssertionError:
+        if "alg" not in jwt.headers:
             return False
-        else:
-            if jwt.headers["alg"] is None:
-                jwt.headers["alg"] = "none"
 
-            try:
-                assert jwt.headers["alg"] in SIGNER_ALGS
-            except AssertionError:
-                logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
-                return False
-            else:
-                self.jwt = jwt
-                return True
+        if jwt.headers["alg"] is None:
+            jwt.headers["alg"] = "none"
+
+        if jwt.headers["alg"] not in SIGNER_ALGS:
+            logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
+            return False
+
+        self.jwt = jwt
+        return True
 
 
 def factory(token):
-- 
2.43.0


From 6b677641bb2919237c1517167a8d64106d4b4bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:04 +0000
Subject: [PATCH 10/44] fix: the result of make_public_copy can be used and
 serialised

---
 src/jwkest/jwk.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index f73c1cc..c039391 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -949,4 +949,9 @@ def make_public_copy(key):
         else:
             setattr(c, attr, v)
 
+    if isinstance(c, ECKey):
+        c.curve = key.curve
+    elif isinstance(c, RSAKey) and c.n and c.e:
+        c.deserialize()
+
     return c
-- 
2.43.0


From cd9d04b6c053b5eef98e8015a92f0d4b5d9cc3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 11/44] fix: key_eq compares RSA keys instead of raising
 TypeError

---
 src/jwkest/jwk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index c039391..e841224 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -189,7 +189,7 @@ def key_eq(key1, key2):
     if type(key1) == type(key2):
         if isinstance(key1, str):
             return key1 == key2
-        elif isinstance(key1, RSA):
+        elif isinstance(key1, RsaKey):
             return rsa_eq(key1, key2)
 
     return False
-- 
2.43.0


From 5487c7b4eac0801a07b1573acc4b732ffe735d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:17 +0000
Subject: [PATCH 12/44] fix: private EC keys and ECDSA nonces come from the
 cryptographic random generator

They were made with the random module, whose state can be recovered from its
output.
---
 src/jwkest/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 2504ced..ac8d325 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -14,7 +14,7 @@ from jwkest.elliptic import sign_bit
 from jwkest.elliptic import muladdp
 from jwkest.elliptic import y_from_x
 from jwkest.curves import get_curve
-from random import getrandbits
+from Cryptodome.Random.random import getrandbits
 from math import ceil
 
 
-- 
2.43.0


From 5547c9f69b817afc7badaa17c4355725055f288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:02 +0000
Subject: [PATCH 13/44] fix: ECDSA signing tries another nonce when one gives r
 = 0 or s = 0

It repeated the same one for ever.
---
 src/jwkest/ecc.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index ac8d325..e405be7 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -82,9 +82,8 @@ class NISTEllipticCurve(object):
             kinv = inv(k, self.N)
             kg = mulp(self.a, self.b, self.p, self.G, k)
             r = kg[0] % self.N
-            if r == 0:
-                continue
             s = (kinv * (h + r * priv)) % self.N
+            k = None    # if r or s is 0, try another one
         return r, s
 
     # ECDSA (adapted from ecdsa.py)
-- 
2.43.0


From 0b7039376560e1857f32f790969e9bed8cf53080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 14/44] fix: an ECDSA signature that leads to the point at
 infinity is refused

It raised TypeError out of the verification of a token.
---
 src/jwkest/ecc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index e405be7..10a56f4 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -106,8 +106,10 @@ class NISTEllipticCurve(object):
             w = inv(s, self.N)
             u1 = (h * w) % self.N
             u2 = (r * w) % self.N
-            x, y = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
-            return r % self.N == x % self.N
+            point = muladdp(self.a, self.b, self.p, self.G, u1, pub, u2)
+            if point is None:
+                return False
+            return r % self.N == point[0] % self.N
         return False
 
 
-- 
2.43.0


From 137f9c59462e4df107534cb9ce5111260504825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:18 +0000
Subject: [PATCH 15/44] fix: ECDSA signatures of a wrong length are refused

RFC 7518 section 3.4; one with leading zeros of s removed or added verified.
---
 src/jwkest/ecc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 10a56f4..3c9626b 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -100,6 +100,8 @@ class NISTEllipticCurve(object):
     def verify(self, h, sig, pub):
         while h > self.N:
             h >>= 1
+        if len(sig) != 2 * self.bytes:
+            return False
         r = self.bytes2int(sig[:self.bytes])
         s = self.bytes2int(sig[self.bytes:])
         if 0 < r < self.N and 0 < s < self.N:
-- 
2.43.0


From 0055d2926fa669993105c74bde132de0e5614afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:27 +0000
Subject: [PATCH 16/44] fix: ECDSA only shortens a hash that has more bits than
 the order

A hash of as many bits, but a value above the order, was halved, so that
the signature did not verify elsewhere (FIPS 186-4 section 6.4).
---
 src/jwkest/ecc.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/jwkest/ecc.py b/src/jwkest/ecc.py
index 3c9626b..3418d49 100755
--- a/src/jwkest/ecc.py
+++ b/src/jwkest/ecc.py
@@ -86,10 +86,13 @@ class NISTEllipticCurve(object):
             k = None    # if r or s is 0, try another one
         return r, s
 
+    # As many of the leftmost bits of a hash as the order has
+    def _leftmost_bits(self, h):
+        return h >> max(0, h.bit_length() - self.N.bit_length())
+
     # ECDSA (adapted from ecdsa.py)
     def sign(self, h, priv, k=None):
-        while h > self.N:
-            h >>= 1
+        h = self._leftmost_bits(h)
 
         r = s = 0
 
@@ -98,8 +101,7 @@ class NISTEllipticCurve(object):
         return self.int2bytes(r) + self.int2bytes(s)
 
     def verify(self, h, sig, pub):
-        while h > self.N:
-            h >>= 1
+        h = self._leftmost_bits(h)
         if len(sig) != 2 * self.bytes:
             return False
         r = self.bytes2int(sig[:self.bytes])
-- 
2.43.0


From a7c8fc795d2e488d4227a56f375ff3a3e3a75067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:43 +0000
Subject: [PATCH 17/44] fix: A192GCM uses its 192-bit key

The key was filled up with zeros and used with AES-256; and a key that starts
with 16 zero octets was used with AES-128.
---
 src/jwkest/aes_gcm.py | 6 +++++-
 src/jwkest/jwe.py     | 4 ++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/aes_gcm.py b/src/jwkest/aes_gcm.py
index bb158c7..ad15d11 100755
--- a/src/jwkest/aes_gcm.py
+++ b/src/jwkest/aes_gcm.py
@@ -80,7 +80,11 @@ class AES_GCM(object):
         # if master_key >= (1 << 128):
         #    raise InvalidInputException('Master key should be 128-bit')
 
-        self._master_key = long_to_bytes(master_key, 16)
+        # a number has no length, so it can not be a 192-bit key
+        if isinstance(master_key, bytes):
+            self._master_key = master_key
+        else:
+            self._master_key = long_to_bytes(master_key, 16)
         self._aes_ecb = AES.new(self._master_key, AES.MODE_ECB)
         self._auth_key = bytes_to_long(self._aes_ecb.encrypt(b'\x00' * 16))
 
diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index eae02c5..bbdc2e5 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -355,7 +355,7 @@ class JWe(JWx):
         key, iv = self._generate_key_and_iv(enc_alg, key, iv)
 
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
             tag = long_to_bytes(tag)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
@@ -379,7 +379,7 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
-            gcm = AES_GCM(bytes_to_long(key))
+            gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
                                    auth_data)
-- 
2.43.0


From bf7ad733497013f2bc83882017365e5e7bac011b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:51 +0000
Subject: [PATCH 18/44] fix: a GCM authentication tag that starts with zero
 octets keeps them

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index bbdc2e5..26bce38 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -357,7 +357,7 @@ class JWe(JWx):
         if enc_alg in ["A192GCM", "A128GCM", "A256GCM"]:
             gcm = AES_GCM(key)
             ctxt, tag = gcm.encrypt(bytes_to_long(iv), msg, auth_data)
-            tag = long_to_bytes(tag)
+            tag = long_to_bytes(tag, 16)
         elif enc_alg in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
             assert enc_alg in SUPPORTED["enc"]
             ctxt, tag = aes_cbc_hmac_encrypt(key, iv, auth_data, msg)
-- 
2.43.0


From cdba70487b805d4e4f20a8810427f3737eda3d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 19/44] fix: content encryption key, IV and tag of a JWE must
 have the length of its enc

A GCM tag or IV with leading zeros added or removed was accepted, and a key
of another length used with another algorithm than the one in the header.
---
 src/jwkest/jwe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 26bce38..b7b6442 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -379,6 +379,10 @@ class JWe(JWx):
         :return: plain text message or None if decryption failed
         """
         if enc in ["A128GCM", "A192GCM", "A256GCM"]:
+            if len(key) != ENCALGLEN1[enc]:
+                raise DecryptionFailed("Wrong content encryption key length")
+            if len(iv) != 12 or len(tag) != 16:
+                raise DecryptionFailed("Wrong IV or tag length")
             gcm = AES_GCM(key)
             try:
                 text = gcm.decrypt(bytes_to_long(iv), ctxt, bytes_to_long(tag),
@@ -387,6 +391,8 @@ class JWe(JWx):
             except DecryptionFailed:
                 raise
         elif enc in ["A128CBC-HS256", "A192CBC-HS384", "A256CBC-HS512"]:
+            if len(key) != ENCALGLEN2[enc]:
+                raise DecryptionFailed("Wrong content encryption key length")
             return aes_cbc_hmac_decrypt(key, iv, auth_data, ctxt, tag)
         else:
             raise Exception("Unsupported encryption algorithm %s" % enc)
-- 
2.43.0


From f1da1e994f21fe51410b2224db48beb731a9178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:36 +0000
Subject: [PATCH 20/44] fix: AES key wrap refuses a length that is not a
 multiple of 8 octets

Wrapping dropped the last octets of the key, unwrapping ignored any after the
last block, so that they could be added to a token.
---
 src/jwkest/aes_key_wrap.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 0e09c09..7c937f7 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -31,6 +31,8 @@ QUAD = struct.Struct('>Q')
 
 
 def aes_unwrap_key_and_iv(kek, wrapped, mode=MODE_ECB):
+    if len(wrapped) < 16 or len(wrapped) % 8:
+        raise ValueError("A wrapped key has two or more 64-bit blocks")
     n = (len(wrapped) // 8) - 1
     #NOTE: R[0] is never accessed, left in for consistency with RFC indices
     r = [None] + [wrapped[i * 8:i * 8 + 8] for i in range(1, n + 1)]
@@ -65,6 +67,9 @@ def aes_unwrap_key_withpad(kek, wrapped):
 
 
 def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
+    if not plaintext or len(plaintext) % 8:
+        raise ValueError("Only keys of one or more 64-bit blocks can be "
+                         "wrapped")
     n = len(plaintext) // 8
     r = [None] + [plaintext[i * 8:i * 8 + 8] for i in range(0, n)]
     a = iv
-- 
2.43.0


From 9c2fd73afd36e63d869650f048f351fbf6517b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 21/44] fix: aes_wrap_key_withpad works with byte strings on
 Python 3

---
 src/jwkest/aes_key_wrap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/aes_key_wrap.py b/src/jwkest/aes_key_wrap.py
index 7c937f7..9d8331b 100644
--- a/src/jwkest/aes_key_wrap.py
+++ b/src/jwkest/aes_key_wrap.py
@@ -84,7 +84,7 @@ def aes_wrap_key(kek, plaintext, iv=0xa6a6a6a6a6a6a6a6, mode=MODE_ECB):
 
 def aes_wrap_key_withpad(kek, plaintext):
     iv = 0xA65959A600000000 + len(plaintext)
-    plaintext += "\0" * (8 - len(plaintext) % 8)
+    plaintext += b"\0" * (8 - len(plaintext) % 8)
     return aes_wrap_key(kek, plaintext, iv)
 
 
-- 
2.43.0


From 5904b8ccfa5bba46b90a706996b792f6fc488d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:51 +0000
Subject: [PATCH 22/44] fix: malformed PKCS#5 padding is refused

A padding length of 0 gave an empty message, and the value of the padding
octets before the last was not looked at.
---
 src/jwkest/extra.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 9777532..6fd4970 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -50,10 +50,10 @@ def pkcs5trim(x):
     :type  x: bytes
     :rtype: bytes
     """
-    n = unpack('B', x[-1:])[0]
+    n = unpack('B', x[-1:])[0] if x else 0
     # Should never have more than 16 bytes of padding
     # ... since we're only using this with AES
-    if n > 16:
+    if not 1 <= n <= 16 or x[-n:] != x[-1:] * n:
         raise Exception("Mal-formed PKCS#5 padding")
     return x[:-n]
 
-- 
2.43.0


From c0431acef5673c3fda016fb222fa882a9398e034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:59 +0000
Subject: [PATCH 23/44] fix: the AlgorithmID of the ECDH-ES key derivation has
 its length in front

RFC 7518 section 4.6.2; without it the derived keys (see Appendix C there)
are not those of other implementations.
---
 src/jwkest/extra.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/extra.py b/src/jwkest/extra.py
index 6fd4970..4a853bd 100644
--- a/src/jwkest/extra.py
+++ b/src/jwkest/extra.py
@@ -176,7 +176,7 @@ def ecdh_derive_key(curve, key, epk, apu, apv, alg, dk_len):
     Z = curve.dh_z(key, epk)
     # Derive the key
     # AlgorithmID || PartyUInfo || PartyVInfo || SuppPubInfo
-    otherInfo = bytes(alg) + \
+    otherInfo = pack("!I", len(alg)) + bytes(alg) + \
         pack("!I", len(apu)) + apu + \
         pack("!I", len(apv)) + apv + \
         pack("!I", dk_len)
-- 
2.43.0


From f5306408976aac78adef343f83cb5a5b4d3faf26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:27 +0000
Subject: [PATCH 24/44] fix: a JWE must have exactly five parts with every
 algorithm

Only the key wrap algorithms checked it; further parts were ignored.
---
 src/jwkest/jwe.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index b7b6442..2fd0c1d 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -541,6 +541,9 @@ class JWE_RSA(JWe):
         else:
             jwe = token
 
+        if len(jwe) != 5:
+            raise WrongNumberOfParts(len(jwe))
+
         self.jwt = jwe.encrypted_key()
         jek = jwe.encrypted_key()
 
@@ -642,6 +645,9 @@ class JWE_EC(JWe):
 
     def dec_setup(self, token, key=None, **kwargs):
 
+        if len(token) != 5:
+            raise WrongNumberOfParts(len(token))
+
         self.headers = token.headers
         self.iv = token.initialization_vector()
         self.ctxt = token.ciphertext()
-- 
2.43.0


From b04054d30988c205c159acb0716dfdf380c09945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:09 +0000
Subject: [PATCH 25/44] fix: an EC key made by load_key has its curve name

Encrypting to it raised an exception and it was never equal to the same key
read from its JWK.
---
 src/jwkest/jwk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/jwkest/jwk.py b/src/jwkest/jwk.py
index e841224..78fa4f5 100644
--- a/src/jwkest/jwk.py
+++ b/src/jwkest/jwk.py
@@ -643,6 +643,7 @@ class ECKey(Key):
 
     def load_key(self, key):
         self.curve = key
+        self.crv = key.name()
         self.d, (self.x, self.y) = key.key_pair()
         return self
 
-- 
2.43.0


From c1ca51cded5951c66b813e061f1e421336aecdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:16 +0000
Subject: [PATCH 26/44] fix: the ephemeral key of a JWE must be on the curve of
 the receiver's key

The private key was used on the curve the sender named.
---
 src/jwkest/jwe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 2fd0c1d..3b72d42 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -659,6 +659,9 @@ class JWE_EC(JWe):
                 "Ephemeral Public Key Missing in ECDH-ES Computation")
 
         epubkey = ECKey(**self.headers["epk"])
+        if epubkey.curve.name() != key.curve.name():
+            raise DecryptionFailed(
+                "The ephemeral public key is on another curve")
         apu = apv = ""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
-- 
2.43.0


From 1f919ac6e786eab36176918b77580cc3f0f0eec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:23 +0000
Subject: [PATCH 27/44] fix: with ECDH-ES the encrypted key of a JWE must be
 empty (RFC 7516 section 5.2)

---
 src/jwkest/jwe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 3b72d42..f71653c 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -669,6 +669,8 @@ class JWE_EC(JWe):
             apv = b64d(self.headers["apv"].encode())
 
         if self.headers["alg"] == "ECDH-ES":
+            if token.encrypted_key():
+                raise DecryptionFailed("Unexpected encrypted key")
             try:
                 dk_len = KEYLEN[self.headers["enc"]]
             except KeyError:
-- 
2.43.0


From 02c9a49d909581b174412735e3ec427076836fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:30 +0000
Subject: [PATCH 28/44] fix: ECDH-ES tokens without apu or apv can be decrypted
 on Python 3

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index f71653c..ab981e3 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -662,7 +662,7 @@ class JWE_EC(JWe):
         if epubkey.curve.name() != key.curve.name():
             raise DecryptionFailed(
                 "The ephemeral public key is on another curve")
-        apu = apv = ""
+        apu = apv = b""
         if "apu" in self.headers:
             apu = b64d(self.headers["apu"].encode())
         if "apv" in self.headers:
-- 
2.43.0


From ee5f738d72e411ae8a2ebaf0871fb75ac797af92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:35 +0000
Subject: [PATCH 29/44] fix: byte strings can be encrypted with the AES key
 wrap algorithms too

---
 src/jwkest/jwe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index ab981e3..db6dfca 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -439,7 +439,7 @@ class JWE_SYM(JWe):
 
         _enc = self["enc"]
 
-        ctxt, tag, cek = self.enc_setup(_enc, _msg.encode(),
+        ctxt, tag, cek = self.enc_setup(_enc, as_bytes(_msg),
                                         jwe.b64_encode_header(),
                                         cek, iv=iv)
         return jwe.pack(parts=[jek, iv, ctxt, tag])
-- 
2.43.0


From 7743023356a3df1d80c33e97f0e3ad5f3d1d6ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:09 +0000
Subject: [PATCH 30/44] fix: apu may be text and apv is used when encrypting
 with ECDH-ES

A given apv was replaced by random octets.
---
 src/jwkest/jwe.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index db6dfca..103d752 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -589,11 +589,11 @@ class JWE_EC(JWe):
 
         # Generate the input parameters
         try:
-            apu = b64d(kwargs["apu"])
+            apu = b64d(as_bytes(kwargs["apu"]))
         except KeyError:
             apu = Random.get_random_bytes(16)
         try:
-            apv = b64d(kwargs["apv"])
+            apv = b64d(as_bytes(kwargs["apv"]))
         except KeyError:
             apv = Random.get_random_bytes(16)
 
@@ -738,7 +738,7 @@ class JWE_EC(JWe):
 
 class JWE(JWx):
     args = ["alg", "enc", "epk", "zip", "jku", "jwk", "x5u", "x5t",
-            "x5c", "kid", "typ", "cty", "apu", "crit"]
+            "x5c", "kid", "typ", "cty", "apu", "apv", "crit"]
 
     """
     :param msg: The message
-- 
2.43.0


From fb38589939aed62da4e8d4c93ea21fb672e1cf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 31/44] fix: JWE.decrypt tries all suitable keys

It stopped with an exception at the first key that was not the right one, and
with ECDH-ES only looked at the first.
---
 src/jwkest/jwe.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 103d752..a676e01 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -25,9 +25,11 @@ from jwkest import WrongNumberOfParts
 from jwkest import JWKESTException
 from jwkest import MissingKey
 from jwkest.aes_gcm import AES_GCM
+from jwkest.aes_gcm import InvalidTagException
 from jwkest.aes_key_wrap import aes_wrap_key
 from jwkest.aes_key_wrap import aes_unwrap_key
 from jwkest.ecc import NISTEllipticCurve
+from jwkest.extra import VerificationFailure
 from jwkest.extra import aes_cbc_hmac_encrypt
 from jwkest.extra import ecdh_derive_key
 from jwkest.extra import aes_cbc_hmac_decrypt
@@ -881,7 +883,7 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             decrypter = JWE_EC(**self._dict)
-            cek = decrypter.dec_setup(jwe, key=keys[0])
+            cek = None
         else:
             raise NotSupportedAlgorithm
 
@@ -898,9 +900,12 @@ class JWE(JWx):
         for key in keys:
             _key = key.encryption_key(alg=_alg, private=False)
             try:
+                if isinstance(decrypter, JWE_EC):
+                    decrypter.dec_setup(jwe, key=key)
                 msg = decrypter.decrypt(jwe, _key)
                 self["cek"] = decrypter.cek if 'cek' in decrypter else None
-            except (KeyError, DecryptionFailed):
+            except (KeyError, ValueError, DecryptionFailed,
+                    InvalidTagException, VerificationFailure):
                 pass
             else:
                 logger.debug(
-- 
2.43.0


From ef2ac9ab091f540568c25e683f1eb043b72e74ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:51 +0000
Subject: [PATCH 32/44] fix: the crit header is no longer turned into x5c

---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 6c2952b..191fc3a 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -292,7 +292,7 @@ class JWx(object):
                     else:
                         self._dict["jwk"] = _val
                 elif key == "x5c" or key == "crit":
-                    self._dict["x5c"] = _val or []
+                    self._dict[key] = _val or []
                 else:
                     self._dict[key] = _val
 
-- 
2.43.0


From 88b1c9f0e81e31ae3f1a0565f5884302c5ff42bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:57 +0000
Subject: [PATCH 33/44] fix: verifying a token with an unknown algorithm raises
 UnknownAlgorithm

---
 src/jwkest/jws.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 191fc3a..b6d49d8 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -566,7 +566,10 @@ class JWS(JWx):
             else:
                 raise NoSuitableSigningKeys("No key for algorithm: %s" % _alg)
 
-        verifier = SIGNER_ALGS[_alg]
+        try:
+            verifier = SIGNER_ALGS[_alg]
+        except KeyError:
+            raise UnknownAlgorithm(_alg)
 
         for key in _keys:
             try:
-- 
2.43.0


From bdfc6794dd05f91c63e61066406f2d903c5ece18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:02 +0000
Subject: [PATCH 34/44] fix: verify_json refuses a JWS with an empty list of
 signatures

It returned None, as for a verified payload of null.
---
 src/jwkest/jws.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index b6d49d8..fdd174a 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -655,6 +655,9 @@ class JWS(JWx):
                     signature[key] = _jwss[key]
             _signs = [signature]
 
+        if not _signs:
+            raise FormatError("Missing signatures")
+
         _claim = None
         for _sign in _signs:
             protected_headers = _sign.get("protected", "")
-- 
2.43.0


From 4b59e49d0406cb290921f2c29ecbab36383b39fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:08 +0000
Subject: [PATCH 35/44] fix: is_jws answers for every JSON text and header

It raised AttributeError or TypeError for JSON that is not an object and for
headers that are not objects or have an alg that is not a string.
---
 src/jwkest/jws.py | 5 ++++-
 src/jwkest/jwt.py | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index fdd174a..e8871d9 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -700,6 +700,8 @@ class JWS(JWx):
     def _is_json_serialized_jws(self, json_jws):
         json_ser_keys = set(["payload", "signatures"])
         flattened_json_ser_keys = set(["payload", "signature"])
+        if not isinstance(json_jws, dict):
+            return False
         if not json_ser_keys.issubset(
                 json_jws.keys()) and not flattened_json_ser_keys.issubset(
                 json_jws.keys()):
@@ -718,7 +720,8 @@ class JWS(JWx):
         if jwt.headers["alg"] is None:
             jwt.headers["alg"] = "none"
 
-        if jwt.headers["alg"] not in SIGNER_ALGS:
+        if not isinstance(jwt.headers["alg"], six.string_types) or \
+                jwt.headers["alg"] not in SIGNER_ALGS:
             logger.debug("UnknownSignerAlg: %s" % jwt.headers["alg"])
             return False
 
diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 3240cf8..27e96a8 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -68,6 +68,8 @@ class JWT(object):
         self.b64part = part
         self.part = [b64d(p) for p in part]
         self.headers = json.loads(self.part[0].decode())
+        if not isinstance(self.headers, dict):
+            raise BadSyntax(part[0], "the header is not a JSON object")
         return self
 
     def pack(self, parts=None, headers=None):
-- 
2.43.0


From 22f0f1a31901e3e79a39f358a4df32ae9e0caef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:44 +0000
Subject: [PATCH 36/44] fix: is_jwe answers for a typ that is not a string

---
 src/jwkest/jwe.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index a676e01..51a7ae4 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -302,7 +302,8 @@ class JWEnc(JWT):
         return b64encode_item(self.headers)
 
     def is_jwe(self):
-        if "typ" in self.headers and self.headers["typ"].lower() == "jwe":
+        typ = self.headers.get("typ")
+        if isinstance(typ, six.string_types) and typ.lower() == "jwe":
             return True
 
         if "alg" not in self.headers or "enc" not in self.headers:
-- 
2.43.0


From 61985bb0c20de614a79b17004c69649db22d5198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:49 +0000
Subject: [PATCH 37/44] fix: JWE.encrypt does not use the content key of an
 earlier message again

---
 src/jwkest/jwe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 51a7ae4..54ded78 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -813,8 +813,10 @@ class JWE(JWx):
                 raise NoSuitableECDHKey(_alg)
 
             encrypter = JWE_EC(**self._dict)
+            # a cek in self belongs to an earlier message
+            _args = dict([(k, v) for k, v in self._dict.items() if k != "cek"])
             cek, encrypted_key, iv, params, eprivk = encrypter.enc_setup(
-                self.msg, self._dict, key=keys[0], **self._dict)
+                self.msg, self._dict, key=keys[0], **_args)
             kwargs["encrypted_key"] = encrypted_key
             kwargs["params"] = params
         else:
-- 
2.43.0


From 8be190c8dc1799da9708a2d4af00fb942f1bd755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:28 +0000
Subject: [PATCH 38/44] fix: signing does not write a kid or typ to the
 caller's protected headers

The kid of one key was found in the next token made with the same dictionary,
also when that was signed with another key.
---
 src/jwkest/jws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index e8871d9..3147fa3 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -452,7 +452,7 @@ class JWS(JWx):
         else:
             keys = self.pick_keys(self._get_keys(), use=use, alg=_alg)
 
-        xargs = protected or {}
+        xargs = dict(protected or {})
         xargs["alg"] = _alg
 
         if keys:
-- 
2.43.0


From 3e9436405f1542c47427f9d0a85bb0f00c3a7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 39/44] fix: a key declared for encryption does not verify
 signatures

---
 src/jwkest/jws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 3147fa3..c95cf09 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -552,9 +552,9 @@ class JWS(JWx):
         self["alg"] = _alg
 
         if keys:
-            _keys = self.pick_keys(keys)
+            _keys = self.pick_keys(keys, use="sig")
         else:
-            _keys = self.pick_keys(self._get_keys())
+            _keys = self.pick_keys(self._get_keys(), use="sig")
 
         if not _keys:
             if "kid" in self:
-- 
2.43.0


From 458e304c4cd0a6fe7e3ed81317d375e001d0f72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:19 +0000
Subject: [PATCH 40/44] fix: an ECDSA algorithm is only used with keys on its
 own curve

---
 src/jwkest/jws.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index c95cf09..ec9b42d 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -209,6 +209,9 @@ SIGNER_ALGS = {
     'none': None
 }
 
+# The curve each ECDSA algorithm is defined for, RFC 7518 section 3.4
+ALG_CURVE = {'ES256': 'P-256', 'ES384': 'P-384', 'ES512': 'P-521'}
+
 
 def alg2keytype(alg):
     if not alg or alg.lower() == "none":
@@ -412,6 +415,10 @@ class JWx(object):
             if alg and _key.alg and _key.alg != alg:
                 continue
 
+            _crv = getattr(_key, "crv", "")
+            if alg in ALG_CURVE and _crv and _crv != ALG_CURVE[alg]:
+                continue
+
             pkey.append(_key)
 
         return pkey
-- 
2.43.0


From e762cff064e934c8f23fac25d6038ff2bb34209c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 41/44] fix: sign_json signs the messages sign_compact signs,
 octets and JSON objects too

---
 src/jwkest/jws.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index ec9b42d..33f4090 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -27,7 +27,6 @@ from jwkest import b64d
 from jwkest import as_unicode
 from jwkest import WrongNumberOfParts
 from jwkest import b64d_enc_dec
-from jwkest import b64e_enc_dec
 from jwkest import b64e
 from jwkest import constant_time_compare
 from jwkest import safe_str_cmp
@@ -620,7 +619,7 @@ class JWS(JWx):
 
             return signature_entry
 
-        res = {"payload": b64e_enc_dec(self.msg, "utf-8", "ascii")}
+        res = {"payload": b64encode_item(self.msg).decode("ascii")}
 
         if headers is None:
             headers = [(dict(alg=self.alg), None)]
-- 
2.43.0


From 25379e3e9e76aaefc2dc5a6eb22189c16a00fdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:18 +0000
Subject: [PATCH 42/44] fix: JSON objects with fractional numbers can be signed
 and packed

---
 src/jwkest/jwt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/jwkest/jwt.py b/src/jwkest/jwt.py
index 27e96a8..169e19b 100644
--- a/src/jwkest/jwt.py
+++ b/src/jwkest/jwt.py
@@ -21,7 +21,7 @@ def split_token(token):
 def b2s_conv(item):
     if isinstance(item, bytes):
         return item.decode("utf-8")
-    elif item is None or isinstance(item, (six.string_types, int, bool)):
+    elif item is None or isinstance(item, (six.string_types, int, float, bool)):
         return item
     elif isinstance(item, list):
         return [b2s_conv(i) for i in item]
-- 
2.43.0


From e24badc47bc87598ed34262ed6d292e889fcaa77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:38 +0000
Subject: [PATCH 43/44] fix: encrypting with ECDH-ES needs only the public key
 of the receiver

---
 src/jwkest/jwe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/jwkest/jwe.py b/src/jwkest/jwe.py
index 54ded78..53e99fc 100644
--- a/src/jwkest/jwe.py
+++ b/src/jwkest/jwe.py
@@ -832,9 +832,9 @@ class JWE(JWx):
         for key in keys:
             if isinstance(encrypter, JWE_EC):
                 if self.enc:
-                    _key = key.encryption_key(alg=self.enc, private=True)
+                    _key = key.encryption_key(alg=self.enc, private=False)
                 else:
-                    _key = key.encryption_key(alg=_alg, private=True)
+                    _key = key.encryption_key(alg=_alg, private=False)
             else:
                 _key = key.encryption_key(alg=_alg, private=True)
 
-- 
2.43.0


From 8bd7719d4a4dd6358440d5fdb082fc926657ea30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:01 +0000
Subject: [PATCH 44/44] fix: the headers of a JSON signature outlived its
 verification

---
 src/jwkest/jws.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/jwkest/jws.py b/src/jwkest/jws.py
index 33f4090..70d000b 100644
--- a/src/jwkest/jws.py
+++ b/src/jwkest/jws.py
@@ -674,14 +674,19 @@ class JWS(JWx):
             all_headers = unprotected_headers.copy()
             all_headers.update(
                 json.loads(b64d_enc_dec(protected_headers) or {}))
-            self.__init__(**all_headers)
-
-            _tmp = self.verify_compact(token, keys, allow_none, sigalg)
+            # the headers of a signature must not outlive its verification
+            _jws = JWS(**all_headers)
+            _tmp = _jws.verify_compact(token, keys, allow_none, sigalg)
             if _claim is None:
                 _claim = _tmp
             elif _claim != _tmp:
                 raise FormatError("The signatures have different payloads")
 
+            self.jwt = _jws.jwt
+            self.msg = _jws.msg
+            if "key" in _jws.__dict__:
+                self.key = _jws.key
+
         return _claim
 
     def is_jws(self, jws):
-- 
2.43.0

