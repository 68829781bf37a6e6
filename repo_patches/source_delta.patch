From b2a7dafd22031e722329121a425cdcd247b185ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 01/55] fix: doubling a point of order two gives infinity

---
 nbc/util/ecdsa/ellipticcurve.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index ba83847..273fba9 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -157,6 +157,9 @@ class Point( object ):
     p = self.__curve.p()
     a = self.__curve.a()
 
+    if ( 2 * self.__y ) % p == 0:
+      return INFINITY
+
     l = ( ( 3 * self.__x * self.__x + a ) * \
           numbertheory.inverse_mod( 2 * self.__y, p ) ) % p
 
-- 
2.43.0


From 8e391de3479c79cbed0ba08e2894d769ba5fde0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 02/55] fix: scalar multiplication never returns a point with a
 negative coordinate

---
 nbc/util/ecdsa/ellipticcurve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ellipticcurve.py b/nbc/util/ecdsa/ellipticcurve.py
index 273fba9..fc6c0bd 100644
--- a/nbc/util/ecdsa/ellipticcurve.py
+++ b/nbc/util/ecdsa/ellipticcurve.py
@@ -124,7 +124,7 @@ class Point( object ):
     # From X9.62 D.3.2:
 
     e3 = 3 * e
-    negative_self = Point( self.__curve, self.__x, -self.__y, self.__order )
+    negative_self = Point( self.__curve, self.__x, -self.__y % self.__curve.p(), self.__order )
     i = leftmost_bit( e3 ) // 2
     result = self
     # print_("Multiplying %s by %d (e3 = %d):" % ( self, other, e3 ))
-- 
2.43.0


From 971ef8cda8c77e03f44eb904464860879c3790df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 03/55] fix: reduce r modulo the group order when signing

---
 nbc/util/ecdsa/ecdsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 8ed0247..13c7361 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -143,7 +143,7 @@ class Private_key( object ):
     n = G.order()
     k = random_k % n
     p1 = k * G
-    r = p1.x()
+    r = p1.x() % n
     if r == 0: raise RuntimeError("amazingly unlucky random number r")
     s = ( numbertheory.inverse_mod( k, n ) * \
           ( hash + ( self.secret_multiplier * r ) % n ) ) % n
-- 
2.43.0


From 1a0a753e125242432ba5bd532bdf146a6598bee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 04/55] fix: signature check returns False when u1*G + u2*Q is
 infinity

---
 nbc/util/ecdsa/ecdsa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 13c7361..3b8378f 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -107,6 +107,7 @@ class Public_key( object ):
     u1 = ( hash * c ) % n
     u2 = ( r * c ) % n
     xy = u1 * G + u2 * self.point
+    if xy == ellipticcurve.INFINITY: return False
     v = xy.x() % n
     return v == r
 
-- 
2.43.0


From 9a4b7826f68abc9cf743d87633445f8925c0b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 05/55] fix: bound public point coordinates by the field prime,
 not the group order

---
 nbc/util/ecdsa/ecdsa.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/ecdsa.py b/nbc/util/ecdsa/ecdsa.py
index 3b8378f..f7d54de 100644
--- a/nbc/util/ecdsa/ecdsa.py
+++ b/nbc/util/ecdsa/ecdsa.py
@@ -86,7 +86,8 @@ class Public_key( object ):
       raise RuntimeError("Generator point must have order.")
     if not n * point == ellipticcurve.INFINITY:
       raise RuntimeError("Generator point order is bad.")
-    if point.x() < 0 or n <= point.x() or point.y() < 0 or n <= point.y():
+    p = self.curve.p()
+    if point.x() < 0 or p <= point.x() or point.y() < 0 or p <= point.y():
       raise RuntimeError("Generator point has x or y out of range.")
 
 
@@ -195,7 +196,8 @@ def point_is_valid( generator, x, y ):
 
   n = generator.order()
   curve = generator.curve()
-  if x < 0 or n <= x or y < 0 or n <= y:
+  p = curve.p()
+  if x < 0 or p <= x or y < 0 or p <= y:
     return False
   if not curve.contains_point( x, y ):
     return False
-- 
2.43.0


From 3faa9272fbc021acaa5ead4e6dff5ce964ffad54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 06/55] fix: compare s with the exact half of the order when
 canonizing

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index 5d2f373..e170f5d 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -201,17 +201,17 @@ def sigencode_der(r, s, order):
 # these enforce low S values, by negating the value (modulo the order) if above order/2
 # see CECKey::Sign() https://github.com/bitcoin/bitcoin/blob/master/src/key.cpp#L214
 def sigencode_strings_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_strings(r, s, order)
 
 def sigencode_string_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_string(r, s, order)
 
 def sigencode_der_canonize(r, s, order):
-    if s > order / 2:
+    if s > order // 2:
         s = order - s
     return sigencode_der(r, s, order)
 
-- 
2.43.0


From c6a3ee491631c4cf667169f3bb0e5eb2799a20e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 07/55] fix: integer octet length of the order in RFC 6979
 nonce generation

---
 nbc/util/ecdsa/rfc6979.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/rfc6979.py b/nbc/util/ecdsa/rfc6979.py
index 377e877..384afc1 100644
--- a/nbc/util/ecdsa/rfc6979.py
+++ b/nbc/util/ecdsa/rfc6979.py
@@ -61,7 +61,7 @@ def generate_k(generator, secexp, hash_func, data):
 
     qlen = bit_length(generator.order())
     holen = hash_func().digest_size
-    rolen = (qlen + 7) / 8
+    rolen = (qlen + 7) // 8
     bx = number_to_string(secexp, generator.order()) + bits2octets(data, generator.order())
 
     # Step B
-- 
2.43.0


From 33c3842e6b96bcc7a0e5dba459e971d8b9ae113b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 08/55] fix: DER integers of 128 bytes and more get a long-form
 length

---
 nbc/util/ecdsa/der.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index abcec34..927bbb1 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -17,12 +17,12 @@ def encode_integer(r):
     s = binascii.unhexlify(h)
     num = s[0] if isinstance(s[0], integer_types) else ord(s[0])
     if num <= 0x7f:
-        return b("\x02") + int2byte(len(s)) + s
+        return b("\x02") + encode_length(len(s)) + s
     else:
         # DER integers are two's complement, so if the first byte is
         # 0x80-0xff then we need an extra 0x00 byte to prevent it from
         # looking negative.
-        return b("\x02") + int2byte(len(s)+1) + b("\x00") + s
+        return b("\x02") + encode_length(len(s)+1) + b("\x00") + s
 
 def encode_bitstring(s):
     return b("\x03") + encode_length(len(s)) + s
-- 
2.43.0


From cf2c027c20d030b0f6c872825b6ede83c005232f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 09/55] fix: truncated DER base-128 number raises UnexpectedDER

---
 nbc/util/ecdsa/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecdsa/der.py b/nbc/util/ecdsa/der.py
index 927bbb1..06e032f 100644
--- a/nbc/util/ecdsa/der.py
+++ b/nbc/util/ecdsa/der.py
@@ -116,7 +116,7 @@ def read_number(string):
     llen = 0
     # base-128 big endian, with b7 set in all but the last byte
     while True:
-        if llen > len(string):
+        if llen >= len(string):
             raise UnexpectedDER("ran out of length bytes")
         number = number << 7
         d = string[llen] if isinstance(string[llen], integer_types) else ord(string[llen])
-- 
2.43.0


From 98033817817d12e63ed29234fb34e75207289af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 10/55] fix: undefined UnexpectedDER in the liberal signature
 decoder

---
 nbc/util/ecc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/ecc.py b/nbc/util/ecc.py
index 156212d..3d5d892 100644
--- a/nbc/util/ecc.py
+++ b/nbc/util/ecc.py
@@ -45,7 +45,7 @@ def twos_comp(val, bits):
 def remove_integer(string):
     if not string.startswith(b("\x02")):
         n = string[0] if isinstance(string[0], der.integer_types) else ord(string[0])
-        raise UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
+        raise der.UnexpectedDER("wanted integer (0x02), got 0x%02x" % n)
     length, llen = der.read_length(string[1:])
     numberbytes = string[1+llen:1+llen+length]
     rest = string[1+llen+length:]
-- 
2.43.0


From a505a8489a47b52c30684f9a75221446de40b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 11/55] fix: compressed public key without a curve point is a
 ValueError

---
 nbc/util/key.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 4fc05f7..18f93fd 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -25,7 +25,7 @@ from . import base58
 
 from .ecdsa.ecdsa import point_is_valid
 from .ecdsa import SECP256k1 as curve
-from .ecdsa.numbertheory import square_root_mod_prime
+from .ecdsa.numbertheory import square_root_mod_prime, SquareRootError
 from .ecdsa.util import number_to_string, string_to_number
 
 import hashlib
@@ -66,7 +66,10 @@ def decompress_public_key(public_key):
         raise ValueError('invalid compressed public key')
 
     x = string_to_number(public_key[1:])
-    y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    try:
+        y = square_root_mod_prime((x ** 3 + _a * x + _b) % _p, _p)
+    except SquareRootError:
+        raise ValueError('invalid public key')
     if not point_is_valid(curve.generator, x, y):
         raise ValueError('invalid public key')
 
-- 
2.43.0


From 131d679da344b3d8e1680f9434e75f231a964ee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 12/55] fix: wif private key with a bad checksum is a
 ValueError

---
 nbc/util/key.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index 18f93fd..bc43894 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -86,6 +86,8 @@ def privkey_to_wif(privkey, prefix = b'\x80'):
 # See: https://en.bitcoin.it/wiki/Wallet_import_format
 def privkey_from_wif(privkey, prefix = b'\x80'):
     key = base58.decode_check(privkey)
+    if not key:
+        raise ValueError('invalid wif private key')
     if ORD(prefix) != ORD(key[0]):
         raise ValueError('wif private key has does not match prefix')
     if len(key) == 33:
-- 
2.43.0


From 501b6b4ec0d792b4a9e4098b22b4910e8b1fee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 13/55] fix: point_decompress picks the root with the requested
 parity

---
 nbc/wallet/hdwallet.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 34f9de9..63d3507 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -29,13 +29,13 @@ def point_compress(point):
 def point_decompress(curve, data):
   prefix = data[0]; ch = ORD(prefix)
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
-  parity = 1 if ch == 2 else -1
   
   x = string_to_number(data[1:])
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-  y = parity * y % curve.p()
+  if (y & 1) != (ch & 1):
+    y = -y % curve.p()
   return ellipticcurve.Point(curve, x, y)
 
 class HDWallet(object):
-- 
2.43.0


From 74aa2e4c181584d9585a1a0e8f4f5e6313f9259c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 14/55] fix: HDWallet.from_extended_key decodes its own
 extended keys

---
 nbc/wallet/hdwallet.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 63d3507..727e0e2 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -194,9 +194,9 @@ class HDWallet(object):
     return ecc.verify(data,pubKey,signature)
   
   @staticmethod
-  def from_extended_key(extended_key):
-    decoded = base58.b58decode(extended_key,78+4)
-    assert(decoded)
+  def from_extended_key(extended_key, vcn=None):
+    decoded = base58.b58decode(extended_key)
+    assert(len(decoded) == 78+4)
     ekdata = decoded[:78]
     checksum = decoded[78:78+4]
     # validate checksum
@@ -221,7 +221,7 @@ class HDWallet(object):
     else:
       raise Exception('unknown version')
     
-    return HDWallet( key, chaincode, vcn=self.vcn,
+    return HDWallet( key, chaincode, vcn=vcn,
       testnet=testnet, depth=depth,
       childnum=childnum, parentfp=parentfp )
   
-- 
2.43.0


From 90f0ac428627ca0e1113ee98cae0dadffbc9432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 15/55] fix: HD child wallets keep the vcn of their parent

---
 nbc/wallet/hdwallet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 727e0e2..77b27ab 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -114,7 +114,7 @@ class HDWallet(object):
       
       childKey = childPubkey
     
-    return self.__class__(childKey, childChain, 
+    return self.__class__(childKey, childChain, vcn=self.vcn,
       testnet=self._testnet,
       depth=self._depth + 1,
       parentfp=self.fingerprint(),
-- 
2.43.0


From 6b649672b5809f81d9bd37b4b6b0e4ad0d3b6bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 16/55] fix: saved watch-only address keeps its compressed form

---
 nbc/wallet/address.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 27789bf..0d94050 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -187,7 +187,7 @@ class Address(object):
       
       cfg['prvkey'] = hexlify(privKey).decode('latin-1')
     elif pubKey:
-      cfg['pubkey'] = hexlify(pubKey).decode('latin-1')
+      cfg['pubkey'] = hexlify(self.publicKey()).decode('latin-1')
     return cfg
   
   @classmethod
-- 
2.43.0


From 706401b8ec9f5467f23ebd08d0a10f306b11b42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 17/55] fix: AES-256 key expansion on python3

---
 nbc/util/pyaes/aes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/pyaes/aes.py b/nbc/util/pyaes/aes.py
index 1b062ad..5afbaea 100644
--- a/nbc/util/pyaes/aes.py
+++ b/nbc/util/pyaes/aes.py
@@ -158,16 +158,16 @@ class AES(object):
 
             # Key expansion for 256-bit keys is "slightly different" (fips-197)
             else:
-                for i in xrange(1, KC / 2):
+                for i in xrange(1, KC // 2):
                     tk[i] ^= tk[i - 1]
-                tt = tk[KC / 2 - 1]
+                tt = tk[KC // 2 - 1]
 
-                tk[KC / 2] ^= (self.S[ tt        & 0xFF]        ^
+                tk[KC // 2] ^= (self.S[ tt        & 0xFF]        ^
                               (self.S[(tt >>  8) & 0xFF] <<  8) ^
                               (self.S[(tt >> 16) & 0xFF] << 16) ^
                               (self.S[(tt >> 24) & 0xFF] << 24))
 
-                for i in xrange(KC / 2 + 1, KC):
+                for i in xrange(KC // 2 + 1, KC):
                     tk[i] ^= tk[i-1]
 
             # Copy values into round key arrays
-- 
2.43.0


From 87c6be4fcfad966fab16859e288eb924fda02c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 18/55] fix: block feeder buffers bytes on python3

---
 nbc/util/pyaes/blockfeeder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/blockfeeder.py b/nbc/util/pyaes/blockfeeder.py
index c0ec3ab..b8fcdb4 100644
--- a/nbc/util/pyaes/blockfeeder.py
+++ b/nbc/util/pyaes/blockfeeder.py
@@ -111,7 +111,7 @@ class BlockFeeder(object):
         self._mode = mode
         self._feed = feed
         self._final = final
-        self._buffer = ""
+        self._buffer = b''
 
     def feed(self, data = None):
         '''Provide bytes to encrypt (or decrypt), returning any bytes
@@ -133,7 +133,7 @@ class BlockFeeder(object):
         self._buffer += data
 
         # We keep 16 bytes around so we can determine padding
-        result = ''
+        result = b''
         while len(self._buffer) > 16:
             can_consume = self._mode._can_consume(len(self._buffer) - 16)
             if can_consume == 0: break
-- 
2.43.0


From 6f2b143a0a7310d983c9eb75da48a58196e0ac52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 19/55] fix: PKCS7 padding is stripped on python3 and a zero
 pad byte is rejected

---
 nbc/util/pyaes/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/util/pyaes/util.py b/nbc/util/pyaes/util.py
index 5c7c140..ed701f0 100644
--- a/nbc/util/pyaes/util.py
+++ b/nbc/util/pyaes/util.py
@@ -31,9 +31,9 @@ def strip_PKCS7_padding(data):
     if len(data) % 16 != 0:
         raise ValueError("invalid length")
 
-    pad = ord(data[-1])
+    pad = ord(data[-1:])
 
-    if pad > 16:
+    if pad < 1 or pad > 16:
         raise ValueError("invalid padding byte")
 
     return data[:-pad]
-- 
2.43.0


From 99066ca0ce1cd37d45afc749355ad11846a5719b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 20/55] fix: nine-byte variable integers are parsed

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index fc92c12..c063d10 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -248,7 +248,7 @@ class FtVarInteger(FormatType):
       return (3,struct.unpack('<H', data[1:3])[0])
     elif value == 0xfe:
       return (5,struct.unpack('<I', data[1:5])[0])
-    elif value == 0xfd:
+    elif value == 0xff:
       return (9,struct.unpack('<Q', data[1:9])[0])
     return (1,value)
   
-- 
2.43.0


From 8376c5064c0f644d626216d6b630fc212368490d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 21/55] fix: variable integers use the shortest form

---
 nbc/protocol/format.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index c063d10..08b9459 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -235,9 +235,9 @@ class FtVarInteger(FormatType):
   def binary(obj):
     if obj < 0xfd:
       return struct.pack('<B',obj)
-    elif obj < 0xffff:
+    elif obj <= 0xffff:
       return b'\xfd' + struct.pack('<H',obj)
-    elif obj < 0xffffffff:
+    elif obj <= 0xffffffff:
       return b'\xfe' + struct.pack('<I',obj)
     return b'\xff' + struct.pack('<Q',obj)
 
-- 
2.43.0


From 0c788705a0f823f29fa9f5a6944ffaa28f740d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 22/55] fix: OutPoint equality

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 08b9459..8571a73 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -446,7 +446,7 @@ class OutPoint(CompoundType):
   def __eq__(self, other):
     if not isinstance(other,OutPoint):
       return False
-    return (self.hash == other.hash) and (self.index == otehr.index)
+    return (self.hash == other.hash) and (self.index == other.index)
 
 class FtOutPoint(FtInventoryVector):
   expected_type = OutPoint
-- 
2.43.0


From f72342d682e265341eddb44161898b805ecb7506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 23/55] fix: message types that set not_regist are not
 registered

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 8571a73..b4b77ae 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -50,7 +50,7 @@ class _AutoRegister(type):
     
     for base in bases:
       if hasattr(base,'register'):
-        if hasattr(base,'not_regist') and not base.not_regist:
+        if hasattr(cls,'not_regist') and not cls.not_regist:
           base.register(cls)
         break
 
-- 
2.43.0


From aabfa21e06a1f35d3b36c066f9cbab093fdb10a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 24/55] fix: reject malformed ipv6 text and accept the
 unspecified address

---
 nbc/protocol/format.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index b4b77ae..e2a41bd 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -279,7 +279,7 @@ class FtIPAddress(FormatType):
     if len(objs) < 2: return None
     if objs[0] == '' and objs[1] == '':      # starts with ::
       del objs[0]
-    elif objs[-1] == '' and objs[-2] == '':  # ends with ::
+    if len(objs) > 1 and objs[-1] == '' and objs[-2] == '':  # ends with ::
       del objs[-1]
     if objs.count('') > 1 or len(objs) > 8:
       return None
@@ -290,7 +290,13 @@ class FtIPAddress(FormatType):
       if group == '':
         groups.extend([ 0 ] * (9 - len(objs)))
       else:
-        groups.append(int(group,16))
+        try:
+          groups.append(int(group,16))
+        except ValueError as e:
+          return None
+    
+    if len(groups) != 8:
+      return None
     
     # is each group in the correct range?
     for group in groups:
-- 
2.43.0


From 5e58ef16d0f38c60d40781d1e812e3a81d8b4de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 25/55] fix: truncated byte fields and strings are parse errors

---
 nbc/protocol/format.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index e2a41bd..1adc4e1 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -345,6 +345,8 @@ class FtBytes(FormatType):
     return obj
   
   def parse(self, data):
+    if len(data) < self._length:
+      raise ValueError('truncated bytes')
     return (self._length, data[:self._length])
   
   def str(self, obj):
@@ -374,6 +376,8 @@ class FtVarString(FormatType):
     else: data = data.encode('latin-1') # for python3
     (vl,length) = FtVarInteger.parse(data)
     obj = data[vl:vl+length]
+    if len(obj) != length:
+      raise ValueError('truncated string')
     return (vl + len(obj), obj)
   
   def str(self, obj):
-- 
2.43.0


From d7ddf6ab1f0f820ece9cf0b04cbd19974a1afdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 26/55] fix: hex helpers and compact targets on python3

---
 nbc/util/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index 455992a..b64ee6a 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -21,6 +21,7 @@
 # THE SOFTWARE.
 
 
+import binascii
 import hashlib
 import json
 import math
@@ -72,8 +73,8 @@ def verify_target(coin, block_header):
     return pow <= get_target(block_header.bits)
 
 def get_target(bits):
-    target = ((bits & 0x7fffff) * 2 ** (8 * ((bits >> 24) - 3)))
-    return ("%064x" % target).decode('hex')
+    target = ((bits & 0x7fffff) << (8 * (bits >> 24))) >> 24
+    return binascii.unhexlify(("%064x" % target).encode('ascii'))
 
 
 DifficultyOneTarget = 26959535291011309493156476344723991336010898738574164086137773096960.0
@@ -96,11 +97,11 @@ def get_merkle_root(transactions):
 # Hexlify Helpers
 
 def hex_to_bin(data):
-    return data.decode('hex')[::-1]
+    return binascii.unhexlify(data)[::-1]
 
 
 def bin_to_hex(data):
-    return data[::-1].encode('hex')
+    return binascii.hexlify(data[::-1])
 
 
 # Protocl Version Helpers
-- 
2.43.0


From aa996354c250eea9d9ff342c882e4530fde25431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 27/55] fix: bans are looked up by the ip they were recorded
 under

---
 nbc/node/basenode.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index c5c941b..02f69fd 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -253,11 +253,12 @@ class BaseNode(asyncore.dispatcher, object):
     (sock,address) = pair
     print('Incoming connection from %s' % repr(address))
     
-    if address in self._banned:
-      if time.time() - self._banned[address] < 3600:
+    ip = address[0]
+    if ip in self._banned:
+      if time.time() - self._banned[ip] < 3600:
         sock.close()            # banned it within one hour
         return
-      del self._banned[address] # else, ignore early banned list
+      del self._banned[ip] # else, ignore early banned list
     
     if not self._listen: # if not accepting incoming, drop it
       sock.close()
-- 
2.43.0


From 60c1e42ac3bbb9420c4138aea04a363d44ae5e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 28/55] fix: address book never exceeds its maximum

---
 nbc/node/basenode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 02f69fd..317f137 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -343,7 +343,7 @@ class BaseNode(asyncore.dispatcher, object):
   
   def command_address(self, peer, addr_list):
     for address in addr_list:
-      if len(self._addresses) > MAX_ADDRESSES: return
+      if len(self._addresses) >= MAX_ADDRESSES: return
       self._addresses[(address.address,address.port)] = (address.timestamp,address.services)
 
 def startServer(node):
-- 
2.43.0


From e7ec48fe0172943762f208fde11b2dc280e3d5c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 29/55] fix: answer getaddr on python3

---
 nbc/node/basenode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 317f137..22766d4 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -327,11 +327,11 @@ class BaseNode(asyncore.dispatcher, object):
       self._addresses[peer.address] = (peer.timestamp, peer.services)
   
   def command_get_address(self, peer):
-    def sortAddr(a,b):
-      return cmp(self._addresses[b][0],self._addresses[a][0]) # by timestamp and with decrease
+    def sortAddr(a):
+      return self._addresses[a][0]  # by timestamp and with decrease
     
     addresses = []
-    for address in sorted(self._addresses,sortAddr):  # add the most recent peers
+    for address in sorted(self._addresses,key=sortAddr,reverse=True):  # add the most recent peers
       (timestamp, services) = self._addresses[address]
       if services is None: continue
       
-- 
2.43.0


From 593efac677d189a515b3155f328fd1a1177fa1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 30/55] fix: peer timestamp is the time it was last heard from

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 513510f..89d39ae 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -93,7 +93,7 @@ class Connection(asyncore.dispatcher):
   banscore = property(lambda s: s._banscore)
   
   # last time we heard from remote
-  timestamp = property(lambda s: (time.time() - s._last_rx_time))
+  timestamp = property(lambda s: s._last_rx_time)
   
   def add_banscore(self, penalty=1):
     self._banscore += penalty
-- 
2.43.0


From c97385f2f5df0a88b146d31902fd496a525ebe1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 31/55] fix: seeded scalars by truncation on python3, mask the
 right number of top bits

---
 nbc/util/ecdsa/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nbc/util/ecdsa/util.py b/nbc/util/ecdsa/util.py
index e170f5d..ab4da7b 100644
--- a/nbc/util/ecdsa/util.py
+++ b/nbc/util/ecdsa/util.py
@@ -120,7 +120,7 @@ def randrange_from_seed__truncate_bytes(seed, order, hashmod=sha256):
     if extrabits:
         bytes += 1
     base = hashmod(seed).digest()[:bytes]
-    base = "\x00"*(bytes-len(base)) + base
+    base = b("\x00")*(bytes-len(base)) + base
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
@@ -131,10 +131,10 @@ def randrange_from_seed__truncate_bits(seed, order, hashmod=sha256):
     bits = int(math.log(order-1, 2)+1)
     maxbytes = (bits+7) // 8
     base = hashmod(seed).digest()[:maxbytes]
-    base = "\x00"*(maxbytes-len(base)) + base
+    base = b("\x00")*(maxbytes-len(base)) + base
     topbits = 8*maxbytes - bits
     if topbits:
-        base = int2byte(ord(base[0]) & lsb_of_ones(topbits)) + base[1:]
+        base = int2byte(ord(base[:1]) & lsb_of_ones(8-topbits)) + base[1:]
     number = 1+int(binascii.hexlify(base), 16)
     assert 1 <= number < order
     return number
-- 
2.43.0


From c8a35007b3d308e0f57cd7c9f917f937043af9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 32/55] fix: splitting a private key on python3

---
 nbc/util/piecewise.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index 1d9ec86..c9943fd 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -113,7 +113,7 @@ def split_private_key(private_key, count = 2):
     secexp = string_to_number(private_key)
 
     # generate random secret exponents, less one
-    secexps = [randrange(curve.order) for i in xrange(count - 1)]
+    secexps = [randrange(curve.order) for i in range(count - 1)]
 
     # compute the missing secret exponent that will sum to the given key
     secexp_missing = (secexp - sum(secexps)) % curve.order
-- 
2.43.0


From 6990ae66ee818ecc08ecc6ef273cd025200d7614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 33/55] fix: address of a combined key is the address of the
 combined private keys

---
 nbc/util/piecewise.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nbc/util/piecewise.py b/nbc/util/piecewise.py
index c9943fd..1654693 100644
--- a/nbc/util/piecewise.py
+++ b/nbc/util/piecewise.py
@@ -58,11 +58,11 @@ __all__ = ['get_address', 'combine_private_keys']
 def CHR(i):  # compatible to python3
   return bytes(bytearray((i,)))
 
-def get_address(public_key, private_key, version = b'\x00'):
+def get_address(public_key, private_key, vcn, version = b'\x00'):
     'Returns the address generated by combiningn a public key and private key.'
 
     # valid public key?
-    if len(public_key) != 65 or public_key[0] != b'\x04':
+    if len(public_key) != 65 or public_key[0:1] != b'\x04':
         raise ValueError('public key must be decompressed')
 
     # the public key's elliptic curve point
@@ -81,10 +81,10 @@ def get_address(public_key, private_key, version = b'\x00'):
     # compute the new public key
     x = number_to_string(combined.x(), curve.order)
     y = number_to_string(combined.y(), curve.order)
-    key_combined = b'\x00' + x + y
+    key_combined = b'\x04' + x + y
 
     # return the public key's address
-    return publickey_to_address(key_combined, version = version)
+    return publickey_to_address(key_combined, vcn, version = version)
 
 
 def combine_private_keys(private_keys):
-- 
2.43.0


From 87cbec9507473d60a27cf6c095d2c32b77693e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:24 +0000
Subject: [PATCH 34/55] fix: ip address groups are plain digits

---
 nbc/protocol/format.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 1adc4e1..5ed0b39 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -258,6 +258,9 @@ class FtVarInteger(FormatType):
 class FtIPAddress(FormatType):
   @staticmethod
   def _ipv4_groups(obj):
+    # digits only; int() would also take signs, blanks and underscores
+    if not set(obj) <= set('0123456789.'): return None
+    
     # convert each group to its value
     try:
       groups = [int(i) for i in obj.split('.')]
@@ -274,6 +277,9 @@ class FtIPAddress(FormatType):
   
   @staticmethod
   def _ipv6_groups(obj):  # not support '::192.1.56.10/96'
+    # hex digits only; int() would also take signs, blanks, prefixes and underscores
+    if not set(obj) <= set('0123456789abcdefABCDEF:'): return None
+    
     # multiple double-colons or more than 8 groups; bad address
     objs = obj.split(':')
     if len(objs) < 2: return None
-- 
2.43.0


From a546066aee2a8f5e6e8d2ddbdcd1e848f932eb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:01 +0000
Subject: [PATCH 35/55] fix: a single colon is not an ip address

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 5ed0b39..b72c1a9 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -282,7 +282,7 @@ class FtIPAddress(FormatType):
     
     # multiple double-colons or more than 8 groups; bad address
     objs = obj.split(':')
-    if len(objs) < 2: return None
+    if len(objs) < 3: return None            # '::' is the shortest
     if objs[0] == '' and objs[1] == '':      # starts with ::
       del objs[0]
     if len(objs) > 1 and objs[-1] == '' and objs[-2] == '':  # ends with ::
-- 
2.43.0


From ff89b2713aca169e81d0b8f8c323ee70fbd60292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:22 +0000
Subject: [PATCH 36/55] fix: ip address text does not start or end with a
 single colon

---
 nbc/protocol/format.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index b72c1a9..7ba4b7a 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -283,6 +283,8 @@ class FtIPAddress(FormatType):
     # multiple double-colons or more than 8 groups; bad address
     objs = obj.split(':')
     if len(objs) < 3: return None            # '::' is the shortest
+    if (objs[0] == '' and objs[1] != '') or (objs[-1] == '' and objs[-2] != ''):
+      return None                            # starts or ends with a single colon
     if objs[0] == '' and objs[1] == '':      # starts with ::
       del objs[0]
     if len(objs) > 1 and objs[-1] == '' and objs[-2] == '':  # ends with ::
-- 
2.43.0


From 0cd2e736e430a5ba11953e68c9edebc85a07e806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:52 +0000
Subject: [PATCH 37/55] fix: variable integers outside their range are not
 valid

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 7ba4b7a..b8c4528 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -227,7 +227,7 @@ class FtNumber(FormatType):
 class FtVarInteger(FormatType):
   @staticmethod
   def validate(obj):
-    if isinstance(obj, int):
+    if isinstance(obj, integer_types) and 0 <= obj <= 0xffffffffffffffff:
       return obj
     return None
   
-- 
2.43.0


From 023bcdcb2f4f3e3c4a919811d8ca127e7b1aad09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:58 +0000
Subject: [PATCH 38/55] fix: more positional arguments than fields are refused

---
 nbc/protocol/format.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index b8c4528..336ea0c 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -61,6 +61,9 @@ class CompoundType(object):
   def __init__(self, *args, **kw):
     keys = [k for (k, t) in self.properties] # self.properties defines all args and kw
     
+    if len(args) > len(keys):  # zip() would drop the rest
+      raise TypeError('takes exactly %d arguments (%d given)' % (len(keys),len(args)))
+    
     # convert the positional arguments into kw
     params = dict(zip(keys,args))
     for k in kw:
-- 
2.43.0


From 0cea2b18747ce4be7160e174c215082eaec34794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:16 +0000
Subject: [PATCH 39/55] fix: lists of hashes can be printed, so such messages
 can be sent while logging the protocol

---
 nbc/protocol/format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/format.py b/nbc/protocol/format.py
index 336ea0c..3ca7ef2 100644
--- a/nbc/protocol/format.py
+++ b/nbc/protocol/format.py
@@ -361,7 +361,7 @@ class FtBytes(FormatType):
     return (self._length, data[:self._length])
   
   def str(self, obj):
-    return b'0x' + hexlify(obj)
+    return '0x' + hexlify(obj).decode('latin-1')
   
   def __str__(self):
     return '<FtBytes length=%d>' % self._length
-- 
2.43.0


From cacc6088f42abcd976ec7abb3f7260d1e6a10b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 40/55] fix: an empty public key is refused with ValueError
 like any other malformed one

---
 nbc/util/key.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nbc/util/key.py b/nbc/util/key.py
index bc43894..528ac89 100644
--- a/nbc/util/key.py
+++ b/nbc/util/key.py
@@ -43,7 +43,7 @@ def ORD(ch):   # compatible to python3
   return ch if type(ch) == int else ord(ch)
 
 def compress_public_key(public_key):
-    if ORD(public_key[0]) != 4 or len(public_key) != 65:    # public_key[0] != '\x04'
+    if len(public_key) != 65 or ORD(public_key[0]) != 4:    # public_key[0] != '\x04'
         raise ValueError('invalid uncompressed public key')
     y_parity = string_to_number(public_key[33:65])
     return CHR(0x02 + (y_parity & 0x01)) + public_key[1:33]
@@ -54,6 +54,8 @@ _p = curve.curve.p()
 _n = curve.order
 
 def decompress_public_key(public_key):
+    if not public_key:
+        raise ValueError('invalid public key')
     ch = ORD(public_key[0])
     if ch == 4 and len(public_key) == 65:
         x = string_to_number(public_key[1:33])
-- 
2.43.0


From 0fbfa4276d5a4dd6bbcbfa1bd89d49233434ae55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 41/55] fix: an address refuses a private key outside the range
 of the group order

---
 nbc/wallet/address.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index 0d94050..c825965 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -75,6 +75,8 @@ class Address(object):
         raise ValueError('unknown private key type: %r' % privKey[0])
       
       secexp = string_to_number(util.key.privkey_from_wif(self._privKey))
+      if not 1 <= secexp < curve.order:
+        raise ValueError('private key out of range')
       point = curve.generator * secexp
       pubKey = _keyFromPoint(point,False)
     else: self._privKey = None
-- 
2.43.0


From d1a1ae8b6a340de9cc601aa2df2c43544731c4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 42/55] fix: an address refuses an uncompressed public key that
 is not a point of the curve

---
 nbc/wallet/address.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/wallet/address.py b/nbc/wallet/address.py
index c825965..324c21e 100644
--- a/nbc/wallet/address.py
+++ b/nbc/wallet/address.py
@@ -88,6 +88,7 @@ class Address(object):
       if ch == 4:  # prefix with 0x04 means decompressed
         if len(pubKey) != 65:
           raise ValueError('invalid uncomprssed public key')
+        pubKey = util.key.decompress_public_key(pubKey)   # refuse what is not a point of the curve
       elif ch == 2 or ch == 3:
         pubKey = util.key.decompress_public_key(pubKey)
         self._compressed = True
-- 
2.43.0


From 34d63de75cd536527f05f75ea98b863f2302bc84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:49 +0000
Subject: [PATCH 43/55] fix: an extended public key with a coordinate outside
 the field is refused

---
 nbc/wallet/hdwallet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nbc/wallet/hdwallet.py b/nbc/wallet/hdwallet.py
index 77b27ab..b63db2b 100644
--- a/nbc/wallet/hdwallet.py
+++ b/nbc/wallet/hdwallet.py
@@ -31,6 +31,8 @@ def point_decompress(curve, data):
   assert(ch in (2,3))  # data[0] should be b'\x02' or b'\x03'
   
   x = string_to_number(data[1:])
+  if x >= curve.p():
+    raise ValueError('invalid public key')
   y = numbertheory.square_root_mod_prime( 
     ( x * x * x + curve.a() * x + curve.b() ) % curve.p(),  curve.p()
   )
-- 
2.43.0


From a29874dae7a9f1f75d3243786703616043117c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:14 +0000
Subject: [PATCH 44/55] fix: describe an alert that names sub-versions

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 1bda2e1..0471301 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -408,7 +408,7 @@ class Alert(Message):
     return util.ecc.verify(self.payload, public_key, self.signature)
   
   def __str__(self):
-    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
+    return '<message.Alert version=%d relay_until=%d expiration=%d id=%d cancel=%d cancel_set=[%s] min_ver=%d maxver=%d set_sub_ver=[%s] priority=%s comment=%r status_bar=%r reserverd=%r>' % (self.version, self.relay_until, self.expiration, self.id, self.cancel, ", ".join(str(i) for i in self.set_cancel), self.min_ver, self.max_ver, ", ".join(str(i) for i in self.set_sub_ver), self.priority, self.comment, self.status_bar, self.reserved)
   
   def _debug(self):
     return _debug(self, [('s', self.status_bar)])
-- 
2.43.0


From 44c6c795be98eb79d19deb4b9d1fcfa62791ae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 45/55] fix: describe a block whose timestamp is a float

---
 nbc/protocol/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/protocol/messages.py b/nbc/protocol/messages.py
index 0471301..c5e07b1 100644
--- a/nbc/protocol/messages.py
+++ b/nbc/protocol/messages.py
@@ -221,7 +221,7 @@ class Block(Message):
   
   def _debug(self):
     block_hash = util.get_block_header(self.version, self.prev_block,
-      self.merkle_root, self.timestamp, self.bits, self.nonce)
+      self.merkle_root, int(self.timestamp), self.bits, self.nonce)
     return _debug(self, [('h', hexlify(block_hash)), ('t', self.txns)])
 
 class Headers(Message):
-- 
2.43.0


From 326a5db3859322af6c823e5ac3135ea6c646810d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 46/55] fix: sign a digest deterministically with the key's own
 hash by default

---
 nbc/util/ecdsa/keys.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nbc/util/ecdsa/keys.py b/nbc/util/ecdsa/keys.py
index 2ce9c2a..1ec4fc5 100644
--- a/nbc/util/ecdsa/keys.py
+++ b/nbc/util/ecdsa/keys.py
@@ -231,6 +231,7 @@ class SigningKey:
         random generator and producing deterministic (reproducible) signatures.
         See RFC 6979 for more details.
         """
+        hashfunc = hashfunc or self.default_hashfunc
         secexp = self.privkey.secret_multiplier
         k = rfc6979.generate_k(self.curve.generator, secexp, hashfunc, digest)
 
-- 
2.43.0


From 6c043a0fabf9b9399c1053b6435766b657a6fba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:28 +0000
Subject: [PATCH 47/55] fix: compare connections without endless recursion

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 89d39ae..62b2402 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -223,7 +223,7 @@ class Connection(asyncore.dispatcher):
     return hash(self.address)
 
   def __eq__(self, other):
-    return self == other
+    return self is other
   
   def __str__(self):
     return '<Connection(%s) %s:%d>' % (self._fileno,self.ip,self.port)
-- 
2.43.0


From 92bc369248e92a3c75162f8169478c9eff57b2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:55 +0000
Subject: [PATCH 48/55] fix: close a connection that cannot introduce itself

---
 nbc/node/connection.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 62b2402..62e39dd 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -59,15 +59,19 @@ class Connection(asyncore.dispatcher):
     
     # bootstrap communication with the node by broadcasting ver
     now = time.time()
-    message = protocol.Version( version = node.coin.protocol_version,
-                services = self.SERVICES,
-                timestamp = now,
-                addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
-                addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
-                nonce = os.urandom(8),
-                user_agent = node.user_agent,
-                start_height = node.blockchain_height,
-                relay = False )
+    try:
+      message = protocol.Version( version = node.coin.protocol_version,
+                  services = self.SERVICES,
+                  timestamp = now,
+                  addr_recv = protocol.NetworkAddress(now,self.SERVICES,address[0],address[1]),
+                  addr_from = protocol.NetworkAddress(now,self.SERVICES,node.external_ip,node.port),
+                  nonce = os.urandom(8),
+                  user_agent = node.user_agent,
+                  start_height = node.blockchain_height,
+                  relay = False )
+    except Exception as e:  # such as address is not an IP, do not leave a half made channel
+      self.handle_close()
+      raise e
     self.send_message(message)
   
   # remote node details
-- 
2.43.0


From f1c79f8948f0839b70d2dd405e1036433750056f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 49/55] fix: a listening node serves where no UPnP library is
 available

---
 nbc/node/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index 5388a01..caa7ae0 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -30,8 +30,8 @@ def _init_upnp():
   return _upnp
 
 def add_portmap(port, proto, label=''):
-  u = _init_upnp()
   try:
+    u = _init_upnp()
     u.selectigd()  # select Internet Gateway Device
     extAddr = u.externalipaddress()
     print('local ip address %s: ' % u.lanaddr)
-- 
2.43.0


From da6f4f551ac6fd861cd90cc856a3d769bf7a8207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 50/55] fix: no port mapping beyond the last port

---
 nbc/node/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index caa7ae0..c885095 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -43,10 +43,10 @@ def add_portmap(port, proto, label=''):
     # find a free port for the redirection
     eport = port
     r = u.getspecificportmapping(eport,proto)
-    while r != None and eport < 65536:
+    while r != None and eport < 65535:
       eport = eport + 1
       r = u.getspecificportmapping(eport,proto)
-    b = u.addportmapping(eport,proto,u.lanaddr,port,label,'')
+    b = r == None and u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
-- 
2.43.0


From 041a86bb48555ae3742e3956bc5261feb465f61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:48 +0000
Subject: [PATCH 51/55] fix: remove the port mapping that was added, and no
 other

---
 nbc/node/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/nbc/node/__init__.py b/nbc/node/__init__.py
index c885095..b4ebdd4 100644
--- a/nbc/node/__init__.py
+++ b/nbc/node/__init__.py
@@ -13,6 +13,7 @@ class AddrInUseError(Exception): pass
 class StopNode(Exception): pass
 
 _upnp = None
+_portmaps = {}  # (port,proto) -> external port mapped to it
 
 def _init_upnp():
   global _upnp
@@ -48,6 +49,7 @@ def add_portmap(port, proto, label=''):
       r = u.getspecificportmapping(eport,proto)
     b = r == None and u.addportmapping(eport,proto,u.lanaddr,port,label,'')
     if b:
+      _portmaps[(port,proto)] = eport
       print('success! now waiting for %s request on %s:%u' % (proto,extAddr,eport))
       return u
     else:
@@ -56,9 +58,10 @@ def add_portmap(port, proto, label=''):
     print('!! meet Exception: %s' % e)
 
 def remove_portmap(port, proto):
-  if not _upnp: return
+  eport = _portmaps.pop((port,proto),None)
+  if not _upnp or eport is None: return
   try:
-    b = _upnp.deleteportmapping(port,proto)
+    b = _upnp.deleteportmapping(eport,proto)
     if b:
       print('successfully deleted port mapping')
     else:
-- 
2.43.0


From 1bae0bf9cbbe1c2a2d92ba829ed3c19a166dded8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:25 +0000
Subject: [PATCH 52/55] fix: follow the path of a height query through JSON
 lists

---
 nbc/util/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/util/__init__.py b/nbc/util/__init__.py
index b64ee6a..78c2ed6 100644
--- a/nbc/util/__init__.py
+++ b/nbc/util/__init__.py
@@ -147,7 +147,7 @@ def fetch_url_json_path_int(url, path):
             for component in path.split('/'):
                 if isinstance(data, dict):
                     data = data[component]
-                elif ininstance(data, (list, tuple)):
+                elif isinstance(data, (list, tuple)):
                     data = data[int(component)]
                 else:
                     return None
-- 
2.43.0


From 94adc488ad0d9c90e435edd4e45f47b6bab0ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:41 +0000
Subject: [PATCH 53/55] fix: report an address in use on every platform

---
 nbc/node/basenode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 22766d4..0e2b07d 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, asyncore, socket, random
+import sys, time, errno, asyncore, socket, random
 from threading import Event, Thread
 
 from six import print_
@@ -81,7 +81,7 @@ class BaseNode(asyncore.dispatcher, object):
       if address[1] == 0: # if bound to a random port, keep track
         self._address = self.getsockname()
     except socket.error as e:  # port in use... Maybe already running
-      if e.errno == 48:
+      if e.errno == errno.EADDRINUSE:
         raise AddrInUseError()
       raise e
   
-- 
2.43.0


From d658e5938073962550af700760b8117a7bd8b888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:34 +0000
Subject: [PATCH 54/55] fix: a failing accept does not stop a node from
 listening

---
 nbc/node/basenode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nbc/node/basenode.py b/nbc/node/basenode.py
index 0e2b07d..fe074c6 100644
--- a/nbc/node/basenode.py
+++ b/nbc/node/basenode.py
@@ -1,5 +1,5 @@
 
-import sys, time, errno, asyncore, socket, random
+import sys, time, errno, asyncore, socket, random, traceback
 from threading import Event, Thread
 
 from six import print_
@@ -266,6 +266,9 @@ class BaseNode(asyncore.dispatcher, object):
     
     connection.Connection(node=self,sock=sock,address=address) # asyncore will keep a reference in map for us
   
+  def handle_error(self):  # a failing accept, such as too many open files, should not stop listening
+    self.log(traceback.format_exc(),level=self.LOG_LEVEL_ERROR)
+  
   def readable(self):
     return True
   
-- 
2.43.0


From f038205d868c4d3251607911b7167b606f18c71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:34 +0000
Subject: [PATCH 55/55] fix: report a refused connection as such on Python 3

---
 nbc/node/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nbc/node/connection.py b/nbc/node/connection.py
index 62e39dd..3367486 100644
--- a/nbc/node/connection.py
+++ b/nbc/node/connection.py
@@ -173,7 +173,7 @@ class Connection(asyncore.dispatcher):
   
   def handle_error(self):
     t,v,tb = sys.exc_info()
-    if t == socket.error:
+    if issubclass(t,socket.error):  # such as ConnectionRefusedError in python3
       self.node.log('--- connection refused',peer=self,level=self.node.LOG_LEVEL_INFO)
     else:
       self.node.log(traceback.format_exc(),peer=self,level=self.node.LOG_LEVEL_ERROR)
-- 
2.43.0

