From 1d6cbbcde4a6e87ba766913ee539672eed3ecdea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:40 +0000
Subject: [PATCH 01/36] fix: a missing crypto library only makes its own back
 end unavailable

---
 saltchannel/saltlib/saltlib_pynacl.py       | 13 ++++++++-----
 saltchannel/saltlib/saltlib_tweetnaclext.py |  7 +++++--
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/saltchannel/saltlib/saltlib_pynacl.py b/saltchannel/saltlib/saltlib_pynacl.py
index 747f8b3..c4b8916 100644
--- a/saltchannel/saltlib/saltlib_pynacl.py
+++ b/saltchannel/saltlib/saltlib_pynacl.py
@@ -1,10 +1,13 @@
 # -*- coding: utf-8 -*-
 
-from nacl import bindings
+try:
+    from nacl import bindings
 
-from nacl import exceptions as exc
-from nacl._sodium import ffi, lib
-from nacl.exceptions import ensure
+    from nacl import exceptions as exc
+    from nacl._sodium import ffi, lib
+    from nacl.exceptions import ensure
+except ImportError:
+    bindings = None
 
 from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
@@ -13,7 +16,7 @@ class SaltLibPyNaCl(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return True
+        return bindings is not None
 
     # ret: pk, sk
     def crypto_sign_keypair_not_random(self, seed):
diff --git a/saltchannel/saltlib/saltlib_tweetnaclext.py b/saltchannel/saltlib/saltlib_tweetnaclext.py
index d224307..96d676a 100644
--- a/saltchannel/saltlib/saltlib_tweetnaclext.py
+++ b/saltchannel/saltlib/saltlib_tweetnaclext.py
@@ -1,6 +1,9 @@
 # -*- coding: utf-8 -*-
 
-import tweetnacl.raw as tweetnacl
+try:
+    import tweetnacl.raw as tweetnacl
+except ImportError:
+    tweetnacl = None
 
 from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
@@ -9,7 +12,7 @@ class SaltLibTweetNaClExt(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return True
+        return tweetnacl is not None
 
     # ret: pk, sk
     def crypto_sign_keypair_not_random(self, seed):
-- 
2.43.0


From 2431d652d187400012d066c7caf8018a29dda176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:43 +0000
Subject: [PATCH 02/36] fix: SaltLib.getLib honours the requested type and
 skips unavailable back ends

---
 saltchannel/saltlib/saltlib.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..0cefbb9 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -41,10 +41,9 @@ class SaltLib(metaclass=Singleton):
             for t, api in sorted(SaltLib.lib_map.items()):
                 if api.isAvailable():
                     return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+        elif SaltLib.lib_map[lib_type.value].isAvailable():
+            return SaltLib.lib_map[lib_type.value]
+        raise NoSuchLibException
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From fe1dca0b2bf1040811a0bae8871d4284547cedf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:45 +0000
Subject: [PATCH 03/36] fix: randombytes of the native back end passed a length
 as a buffer and crashed

---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..de8759c 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes(buf, ctypes.c_ulonglong(n))
+        return buf.raw
-- 
2.43.0


From ddc36783799a1e5b28f607905eb7ed0d4f9f1868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:47 +0000
Subject: [PATCH 04/36] fix: report an unusable (low-order) public key of the
 peer as BadPeer

---
 saltchannel/saltlib/saltlib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 0cefbb9..3bb0e73 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -7,6 +7,7 @@ from .saltlib_native import SaltLibNative
 from .saltlib_pynacl import SaltLibPyNaCl
 from .saltlib_tweetnaclext import SaltLibTweetNaClExt
 from .exceptions import NoSuchLibException
+from ..exceptions import BadPeer
 
 from ..util.key_pair import KeyPair
 
@@ -77,7 +78,10 @@ class SaltLib(metaclass=Singleton):
             raise ValueError("bad length of my_priv: ", len(my_sk))
         if len(peer_pk) != self.api.crypto_box_PUBLICKEYBYTES:
             raise ValueError("bad length of peer_pub: ", len(peer_pk))
-        return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        try:
+            return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        except Exception as e:  # e.g. low-order point
+            raise BadPeer("unusable public key of peer: ", e)
 
     def encrypt(self, key, nonce, msg):
         return self.api.crypto_box_afternm(msg, nonce, key)
-- 
2.43.0


From 3fa3fd63649e636b7fb88c1a9c17392720c9bed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:50 +0000
Subject: [PATCH 05/36] fix: pure Python back end could not be instantiated nor
 raise its own errors

---
 saltchannel/saltlib/saltlib_pure.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_pure.py b/saltchannel/saltlib/saltlib_pure.py
index 0297bf8..114563d 100644
--- a/saltchannel/saltlib/saltlib_pure.py
+++ b/saltchannel/saltlib/saltlib_pure.py
@@ -4,6 +4,7 @@ from .pure_pynacl import TypeEnum, integer, Int, IntArray
 from .pure_pynacl import tweetnacl
 from .pure_pynacl.tweetnacl import u8
 
+from .exceptions import BadEncryptedDataException, BadSignatureException
 from .saltlib_base import SaltLibBase
 
 class SaltLibPure(SaltLibBase):
@@ -92,4 +93,9 @@ class SaltLibPure(SaltLibBase):
             raise ValueError("invalid parameter")
         h = IntArray(u8, size=64)
         tweetnacl.crypto_hash_sha512_tweet(h, list(m), len(m))
-        return bytes(h)
\ No newline at end of file
+        return bytes(h)
+
+    def randombytes(self, n):
+        c = bytearray(n)
+        tweetnacl.randombytes(c, n)
+        return bytes(c)
-- 
2.43.0


From 743171e16d00aae1a8c5a8378ba8a700ffdf2e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:52 +0000
Subject: [PATCH 06/36] fix: pure Python secretbox_open threw the decrypted
 message away

---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index d5ba020..6bef58d 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -332,7 +332,7 @@ def crypto_secretbox_xsalsa20poly1305_tweet_open(m, c, d, n, k):
     crypto_stream_xsalsa20_tweet(x, 32, n, k)
     if crypto_onetimeauth_poly1305_tweet_verify(c[16:], c[32:], d - 32, x) != 0: return -1
     crypto_stream_xsalsa20_tweet_xor(m, c, d, n, k)
-    m[:] = 32*[u8()]
+    m[:32] = 32*[u8()]
     return 0
 
 
-- 
2.43.0


From ae2e51827d51b41c1c876bad45ce35e821e16163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:54 +0000
Subject: [PATCH 07/36] fix: reject packets shorter than their fields instead
 of filling up with zero or stale bytes

---
 saltchannel/util/packets.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..4b41bca 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -33,8 +33,9 @@ class SmartStructure(LittleEndianStructure):
         super().__init__(**values)
 
     def from_bytes(self, src):
-        if src:
-            memmove(addressof(self), src, min(len(src), sizeof(self)))
+        if len(src) < sizeof(self):
+            raise BadPeer("packet is too short: ", len(src))
+        memmove(addressof(self), src, sizeof(self))
 
     @property
     def size(self):
-- 
2.43.0


From e5c7c493c5919356ebb1a3464b4f1fce67096b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:57 +0000
Subject: [PATCH 08/36] fix: an empty message was taken for a packet with
 default field values

---
 saltchannel/a1a2/packets.py |  4 ++--
 saltchannel/v2/packets.py   | 14 +++++++-------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..9b0bb3d 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,7 +35,7 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -132,7 +132,7 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..52f038a 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,7 +187,7 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -240,7 +240,7 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
@@ -319,7 +319,7 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-- 
2.43.0


From 7a56f29c92fea3459f531188473036238a2908ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:00 +0000
Subject: [PATCH 09/36] fix: A2 protocol strings with non-ASCII bytes or a
 trailing newline are illegal

---
 saltchannel/a1a2/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 9b0bb3d..6026a30 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(rb'[-./A-Za-z0-9_]+\Z')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.match(bytes(self.P1)) and
+                                type(self).proto_re.match(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
-- 
2.43.0


From 92c2ad228a91a2c4226075ac8587ab11cb8f3985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:02 +0000
Subject: [PATCH 10/36] fix: truncated MultiAppPacket must be rejected as
 BadPeer

---
 saltchannel/v2/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 52f038a..b61ce9b 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,8 +294,12 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if offset + sizeof(c_uint16) > len(src):
+                        raise BadPeer("message length is missing: ", cnt)
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if offset + length_field.value > len(src):
+                        raise BadPeer("message is truncated: ", cnt)
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
-- 
2.43.0


From e5ab760aa1ca37f7303908d478deedd1c0ce225b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:03 +0000
Subject: [PATCH 11/36] fix: more messages than MultiAppPacket can count must
 go as single AppPackets

---
 saltchannel/v2/packets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index b61ce9b..4c99317 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -342,7 +342,7 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
-        return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
+        return False if not 2 <= len(msgs) <= 65535 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
 
 # leave here for now
 class TTPacket(Packet):
-- 
2.43.0


From d2abce394887e79be88f553741a33636064dabcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:06 +0000
Subject: [PATCH 12/36] fix: NullTimeChecker failed with TypeError instead of
 BadPeer on a bad first time

---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..dede2b9 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, " + str(time))
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From 95bd5e97662733ffe203acdb423074b6d3b0b2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:08 +0000
Subject: [PATCH 13/36] fix: every time keeper class was a singleton, so
 sessions shared one clock

---
 saltchannel/util/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index dede2b9..d2f456f 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -3,7 +3,7 @@ from . import SingletonABCMeta
 from ..exceptions import BadPeer
 
 
-class TimeKeeper(metaclass=SingletonABCMeta):
+class TimeKeeper(metaclass=ABCMeta):
     """Keeps time; relative time since first message sent. Measure in milliseconds."""
 
     """Call this first, must return 1 when timing is supported and 0 if not."""
@@ -15,7 +15,7 @@ class TimeKeeper(metaclass=SingletonABCMeta):
     def get_time(self): pass
 
 
-class TimeChecker(metaclass=SingletonABCMeta):
+class TimeChecker(metaclass=ABCMeta):
     """"""
 
     """Reports first time. Should be 0 or 1."""
@@ -27,7 +27,7 @@ class TimeChecker(metaclass=SingletonABCMeta):
     def check_time(self, time): pass
 
 
-class NullTimeKeeper(TimeKeeper):
+class NullTimeKeeper(TimeKeeper, metaclass=SingletonABCMeta):
     """A TimeKeeper implementation that does not keep time.
     get_first_time() and get_time() always returns 0.
     """
@@ -41,7 +41,7 @@ class NullTimeKeeper(TimeKeeper):
         return 0
 
 
-class NullTimeChecker(TimeChecker):
+class NullTimeChecker(TimeChecker, metaclass=SingletonABCMeta):
     """TimeChecker that accepts all time values."""
 
     """Reports first time. Should be 0 or 1."""
-- 
2.43.0


From 4463c32c1320f7ef2a3995ec49595bbe4c65d2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:11 +0000
Subject: [PATCH 14/36] fix: EncryptedChannelV2 raised TypeError instead of
 ValueError on a bad key size

---
 saltchannel/v2/encrypted_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..c454e41 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -44,7 +44,7 @@ class EncryptedChannelV2(ByteChannel):
         self.saltlib = SaltLib().getLib()  # refactor to self.salt ?
 
         if len(key) != self.saltlib.crypto_box_SECRETKEYBYTES:
-            raise ValueError("bad key size, should be " + self.saltlib.crypto_box_SECRETKEYBYTES)
+            raise ValueError("bad key size, should be " + str(self.saltlib.crypto_box_SECRETKEYBYTES))
 
         self.key = key
         self.channel = channel
-- 
2.43.0


From b76c1cbb01b18fe9b85d32468f025b77c4fef399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:12 +0000
Subject: [PATCH 15/36] fix: EncryptedChannelV2.read_sync() and write_sync()
 silently did nothing

---
 saltchannel/v2/encrypted_channel_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index c454e41..6a409a3 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -1,5 +1,6 @@
 from enum import Enum
 
+import saltchannel.util as util
 from ..saltlib import SaltLib
 from ..saltlib import BadEncryptedDataException, BadSignatureException
 from ..channel import ByteChannel
@@ -32,7 +33,7 @@ class Nonce:
         return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])
 
 
-class EncryptedChannelV2(ByteChannel):
+class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
     """An implementation of an encrypted channel using a shared symmetric session key.
     The read/write methods throws ComException for low-level IO errors
     and BadPeer if the data format is not OK or if the data is not
-- 
2.43.0


From 8201f47aaeee8b7107fc5d696861fb6ddd0c33ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:15 +0000
Subject: [PATCH 16/36] fix: M3 of wrong size is bad peer data, not an
 assertion failure

---
 saltchannel/v2/salt_client_session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..bcd8077 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -84,7 +84,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
+        if len(chunk) != 2+4+32+64:
+            raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
 
-- 
2.43.0


From f5ceb85ae80ce374fa50be1e782c0214fdb98423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:17 +0000
Subject: [PATCH 17/36] fix: wanted_server_sig_key was ignored by the client
 session

---
 saltchannel/v2/salt_client_session.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index bcd8077..43ea55f 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,7 +56,10 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        self.m1.data.Header.ServerSigKeyIncluded = 1 if self.wanted_server_sig_key else 0
         self.m1.create_opt_fields()
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
 
@@ -108,6 +111,8 @@ class SaltClientSession(metaclass=util.Syncizer):
                                             self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)
         except saltchannel.saltlib.exceptions.BadSignatureException:
             raise saltchannel.exceptions.BadPeer("invalid signature")
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("not the wanted server")
 
     def create_encrypted_channel(self):
         self.session_key = self.saltlib.compute_shared_key(self.enc_keypair.sec, self.m2.ServerEncKey)
-- 
2.43.0


From e51743321d2a86b7b884a78c72fced66ac087808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 18/36] fix: client sessions could not be created in threads or
 after the event loop was closed

---
 saltchannel/a1a2/a1_client_session.py | 4 ++--
 saltchannel/util/__init__.py          | 2 ++
 saltchannel/v2/salt_client_session.py | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/a1_client_session.py b/saltchannel/a1a2/a1_client_session.py
index 467c4c5..b81ca49 100644
--- a/saltchannel/a1a2/a1_client_session.py
+++ b/saltchannel/a1a2/a1_client_session.py
@@ -1,11 +1,11 @@
-import asyncio
+import saltchannel.util as util
 from . import packets
 
 
 class A1ClientSession:
     """"""
     def __init__(self, channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.channel = channel
         self.a1 = packets.A1Packet()
diff --git a/saltchannel/util/__init__.py b/saltchannel/util/__init__.py
index fcd992f..99dc0cd 100644
--- a/saltchannel/util/__init__.py
+++ b/saltchannel/util/__init__.py
@@ -12,6 +12,8 @@ def cbytes(src):
 def force_event_loop(loop=None):
     try:
         loop2 = loop or asyncio.get_event_loop()
+        if loop2.is_closed():
+            raise RuntimeError('Event loop is closed')
     except RuntimeError:  # RuntimeError: There is no current event loop in thread 'Thread-x'.
         loop2 = asyncio.new_event_loop()
         asyncio.set_event_loop(loop2)
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 43ea55f..a26643b 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -15,7 +15,7 @@ class SaltClientSession(metaclass=util.Syncizer):
     Asyncio-based implementation
     """
     def __init__(self, sig_keypair, clear_channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.saltlib = SaltLib()
         self.sig_keypair = sig_keypair
-- 
2.43.0


From 189bf81fce97c4690be5c36b97a5cb63ed19a894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:22 +0000
Subject: [PATCH 19/36] fix: server never answered A1 for another public key
 with NoSuchServer

---
 saltchannel/dev/example_session2.py   | 4 +++-
 saltchannel/dev/example_session2_a.py | 4 +++-
 saltchannel/v2/salt_server_session.py | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/saltchannel/dev/example_session2.py b/saltchannel/dev/example_session2.py
index f1b165c..8839d67 100644
--- a/saltchannel/dev/example_session2.py
+++ b/saltchannel/dev/example_session2.py
@@ -13,6 +13,7 @@ from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.dev.client_server import MpClientServerPair
 from .client_server import Session
 from saltchannel.exceptions  import ComException
@@ -29,7 +30,8 @@ SESSION_NUM = 1
 class ExampleSession(Session):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # as a simple example, the public key is filled with 0x08
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     def server_session(self, channel):
diff --git a/saltchannel/dev/example_session2_a.py b/saltchannel/dev/example_session2_a.py
index 51c4c4f..73eea04 100644
--- a/saltchannel/dev/example_session2_a.py
+++ b/saltchannel/dev/example_session2_a.py
@@ -15,6 +15,7 @@ from saltchannel.channel  import AsyncioChannel
 
 from saltchannel.v2.salt_server_session import SaltServerSession
 from saltchannel.util.crypto_test_data import CryptoTestData
+from saltchannel.util.key_pair import KeyPair
 from saltchannel.a1a2.a1_client_session import A1ClientSession
 
 # Log all to stdout
@@ -29,7 +30,8 @@ CLIENT_NUM = 1
 class ExampleSessionA(SessionA):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        # as a simple example, the public key is filled with 0x08
+        self.server_sig_keypair = KeyPair(sec=CryptoTestData.bSig.sec, pub=b'\x08' * 32)
         self.server_enc_keypair = CryptoTestData.bEnc
 
     async def server_session(self, reader, writer):
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From e35a32c466c6832d46abdac80ce6bd678f9fab9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:24 +0000
Subject: [PATCH 20/36] fix: AsyncioChannel reports I/O failures as
 ComException

---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..89d22da 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except Exception as e:
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except Exception as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From 826850b92b2104eea26811a392694a7387c6fb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:27 +0000
Subject: [PATCH 21/36] fix: tunnel channels could not be written to nor
 awaited

---
 saltchannel/dev/tunnel.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index 002e3a6..e9eee6d 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -1,5 +1,6 @@
 from collections import deque
 from multiprocessing import Pipe
+import saltchannel.util as util
 from saltchannel.channel import ByteChannel
 
 
@@ -13,12 +14,12 @@ class Tunnel:
 
     @staticmethod
     def _channel_factory(in_queue, out_queue):
-        class _Channel(ByteChannel):
-            def read(self):
+        class _Channel(ByteChannel, metaclass=util.Syncizer):
+            async def read(self):
                 return in_queue.popleft()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            async def write(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     out_queue.append(m)
         return _Channel()
 
@@ -31,11 +32,11 @@ class TunnelMP:
 
     @staticmethod
     def _channel_factory(endpoint):
-        class _Channel(ByteChannel):
-            def read(self):
+        class _Channel(ByteChannel, metaclass=util.Syncizer):
+            async def read(self):
                 return endpoint.recv_bytes()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            async def write(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     endpoint.send_bytes(m)
         return _Channel()
\ No newline at end of file
-- 
2.43.0


From b4325788e0f897c8c12c65153d2efbffde93b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:29 +0000
Subject: [PATCH 22/36] fix: MitmChannel dropped all log records while
 buffering

---
 saltchannel/dev/mitm_channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/mitm_channel.py b/saltchannel/dev/mitm_channel.py
index 36ee713..ab6762b 100644
--- a/saltchannel/dev/mitm_channel.py
+++ b/saltchannel/dev/mitm_channel.py
@@ -45,8 +45,8 @@ class MitmChannel(ByteChannel):
                 self.log.info('{:0.6f} +{:0.6f}, {:s}, len(msg):{:d}, msg: b\'{:s}\''
                             .format(log_record.time, log_record.time-self.time0, log_record.type,
                                     len(log_record.data), log_record.data.hex()))
-            else:
-                self.queue.append(log_record)
+        else:
+            self.queue.append(log_record)
         self.time0 = log_record.time
 
     async def read(self):
-- 
2.43.0


From f48cb24388f3575967bb3b085620890abb0cdcf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:32 +0000
Subject: [PATCH 23/36] fix: asyncio.wait() no longer takes a loop

---
 saltchannel/dev/client_server_a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 0a2dbe7..68724b5 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -97,7 +97,7 @@ class ClientServerPairA:
             loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
             for x in range(self.client_num)]
         while futures:
-            done, futures = await asyncio.wait(futures, loop=loop, return_when=asyncio.ALL_COMPLETED)
+            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
             for f in done:
                 await f
 
-- 
2.43.0


From a65f58c9d8bd99977470771cf2ac694dbf62141b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:07 +0000
Subject: [PATCH 24/36] fix: blocking calls of a channel that only defines the
 coroutines did nothing

---
 saltchannel/channel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index 89d22da..629ef47 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -26,11 +26,11 @@ class ByteChannel(metaclass=ABCMeta):
 
 #    @abstractmethod
     def read_sync(self):
-        pass
+        return self.loop.run_until_complete(self.read())
 
 #    @abstractmethod
     def write_sync(self, msg, *args, is_last=False):
-        pass
+        return self.loop.run_until_complete(self.write(msg, *args, is_last=is_last))
 
 
 class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
-- 
2.43.0


From 8c55de3f09aebfa8c16e0790b52c4e7be455f464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:06 +0000
Subject: [PATCH 25/36] fix: a libsodium that cannot be loaded only makes the
 native back end unavailable

---
 saltchannel/saltlib/saltlib_native.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index de8759c..0adce52 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -6,7 +6,10 @@ import ctypes.util
 from .saltlib_base import SaltLibBase
 from .exceptions import BadEncryptedDataException, BadSignatureException
 
-sodium = ctypes.cdll.LoadLibrary(ctypes.util.find_library('sodium'))
+try:
+    sodium = ctypes.cdll.LoadLibrary(ctypes.util.find_library('sodium'))
+except OSError:     # found, but cannot be loaded
+    sodium = None
 
 def wrap(code):
     if code != 0:
@@ -21,7 +24,7 @@ class SaltLibNative(SaltLibBase):
 
     @staticmethod
     def isAvailable():
-        return False if not sodium._name else True
+        return sodium is not None and bool(sodium._name)
 
     def crypto_sign_keypair_not_random(self, seed):
         """
-- 
2.43.0


From 8e5310458d31aa5d26b2f888f4be6bbd6f4b5b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:30 +0000
Subject: [PATCH 26/36] fix: pure Python sign_open accepted a signature with S
 + L as well

---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index 6bef58d..3245d84 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -927,6 +927,9 @@ def crypto_sign_ed25519_tweet_open(m, mlen, sm, n, pk):
     mlen = -1
     if n < 64: return -1
 
+    # S must be reduced, else S + L would be another valid signature
+    if [int(x) for x in sm[32:64]][::-1] >= [int(x) for x in L][::-1]: return -1
+
     if unpackneg(q, pk): return -1
 
     for i in range(n): m[i] = sm[i]
-- 
2.43.0


From b7e2b2df658e1f52fa5907da29912dd138edbeaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:23 +0000
Subject: [PATCH 27/36] fix: asyncio runner could not be stopped after a
 session failed without closing its connection

---
 saltchannel/dev/client_server_a.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 68724b5..0dd6083 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -83,8 +83,16 @@ class ClientServerPairA:
 
     async def _client_session_wrap(self, loop=None):
         reader, writer = await open_saltchannel_connection('127.0.0.1', 8888, loop=loop)
-        await self.session.client_session(reader, writer)
+        try:
+            await self.session.client_session(reader, writer)
+        finally:
+            writer.close()
 
+    async def _server_session_wrap(self, reader, writer):
+        try:
+            await self.session.server_session(reader, writer)
+        finally:
+            writer.close()  # else stop_server() waits forever for this connection
 
     def _spawn_client_process(self):
         new_loop = asyncio.new_event_loop()
@@ -104,7 +112,7 @@ class ClientServerPairA:
     def start_server(self):
         global LOOP, SERVER
         LOOP = asyncio.get_event_loop()
-        coro = start_saltchannel_server(self.session.server_session, '127.0.0.1', 8888, loop=LOOP)
+        coro = start_saltchannel_server(self._server_session_wrap, '127.0.0.1', 8888, loop=LOOP)
         SERVER = LOOP.run_until_complete(coro)
         logging.info('Serving on {}'.format(SERVER.sockets[0].getsockname()))
 
-- 
2.43.0


From ff54906bc45fd91ba1eebe02dcdb435907affe60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:51:25 +0000
Subject: [PATCH 28/36] fix: asyncio runner could not be started again after it
 had been stopped

---
 saltchannel/dev/client_server_a.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 0dd6083..4088dad 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -7,6 +7,8 @@ import asyncio.coroutines as coroutines
 from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
 from abc import ABCMeta, abstractmethod
 
+import saltchannel.util as util
+
 ####### place for now here - later move to separate module
 
 class SaltChannelStreamWriter(streams.StreamWriter):
@@ -111,7 +113,7 @@ class ClientServerPairA:
 
     def start_server(self):
         global LOOP, SERVER
-        LOOP = asyncio.get_event_loop()
+        LOOP = util.force_event_loop()
         coro = start_saltchannel_server(self._server_session_wrap, '127.0.0.1', 8888, loop=LOOP)
         SERVER = LOOP.run_until_complete(coro)
         logging.info('Serving on {}'.format(SERVER.sockets[0].getsockname()))
-- 
2.43.0


From 67d08d7666d83561430a5d41f34a222d4f2ed459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:08 +0000
Subject: [PATCH 29/36] fix: client processes of the asyncio runner kept its
 port in use after the server was stopped

---
 saltchannel/dev/client_server_a.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 4088dad..aafe21b 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -103,13 +103,14 @@ class ClientServerPairA:
         new_loop.close()
 
     async def spawn_clients_and_wait(self, loop=None):
-        futures = [asyncio.ensure_future(
-            loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
-            for x in range(self.client_num)]
-        while futures:
-            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
-            for f in done:
-                await f
+        # the processes inherit the listening socket, so they must be gone before the server is stopped
+        with ProcessPoolExecutor(max_workers=self.client_num+1) as executor:
+            futures = [asyncio.ensure_future(loop.run_in_executor(executor, self._spawn_client_process))
+                       for x in range(self.client_num)]
+            while futures:
+                done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
+                for f in done:
+                    await f
 
     def start_server(self):
         global LOOP, SERVER
-- 
2.43.0


From 217d181c7b755468d82108a0b762649a0cfc7de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:47 +0000
Subject: [PATCH 30/36] fix: pure Python Salsa20 block counter overflowed after
 256 blocks, so boxes over 16 kB were wrong

---
 saltchannel/saltlib/pure_pynacl/tweetnacl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/pure_pynacl/tweetnacl.py b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
index 3245d84..9d53b70 100644
--- a/saltchannel/saltlib/pure_pynacl/tweetnacl.py
+++ b/saltchannel/saltlib/pure_pynacl/tweetnacl.py
@@ -199,7 +199,7 @@ def crypto_stream_salsa20_tweet_xor(c, m, b, n, k):
         u = u32(1)
         for i in range(8, 16):
             u += u32(z[i])
-            z[i] = u
+            z[i] = u8(u)
             u >>= 8
         b -= 64
         c_off += 64
-- 
2.43.0


From aea071ade6e73331ae4f20282142beeafaa87e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:00:38 +0000
Subject: [PATCH 31/36] fix: a cancelled read_msg() no longer loses the size of
 the message it was reading

---
 saltchannel/dev/client_server_a.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index aafe21b..966e251 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -16,9 +16,14 @@ class SaltChannelStreamWriter(streams.StreamWriter):
         self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
 
 class SaltChannelStreamReader(streams.StreamReader):
+    _msg_len = None  # size of the message being read; kept when the read is cancelled
+
     async def read_msg(self):
-        msg_len = struct.unpack('<i', await self.readexactly(4))
-        return b'' if not msg_len else await self.readexactly(msg_len[0])
+        if self._msg_len is None:
+            self._msg_len = struct.unpack('<i', await self.readexactly(4))[0]
+        msg = await self.readexactly(self._msg_len)
+        self._msg_len = None
+        return msg
 
 
 class SaltChannelStreamReaderProtocol(streams.StreamReaderProtocol):
-- 
2.43.0


From 6fe13407db8d95bdfe9e8b3b44f115ecefe6240b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:01:29 +0000
Subject: [PATCH 32/36] fix: crypto functions refuse keys and nonces of wrong
 length instead of reading past them

---
 saltchannel/saltlib/saltlib_native.py | 10 ++++++++++
 saltchannel/saltlib/saltlib_pynacl.py |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index 0adce52..9ed4bb3 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -56,6 +56,8 @@ class SaltLibNative(SaltLibBase):
         Returns:
             bytes: signed message
         """
+        if len(sk) != self.crypto_sign_SECRETKEYBYTES:
+            raise ValueError("Invalid secret key length")
         sm = ctypes.create_string_buffer(len(m) + self.crypto_sign_BYTES)
         smlen = ctypes.c_ulonglong()
         wrap(sodium.crypto_sign(sm, ctypes.byref(smlen), m, ctypes.c_ulonglong(len(m)), sk))
@@ -74,6 +76,8 @@ class SaltLibNative(SaltLibBase):
         Raises:
             BadSignatureException:
         """
+        if len(pk) != self.crypto_sign_PUBLICKEYBYTES:
+            raise BadSignatureException("Invalid public key length")
         m = ctypes.create_string_buffer(len(sm))
         mlen = ctypes.c_ulonglong()
         res = sodium.crypto_sign_open(m, ctypes.byref(mlen), sm, ctypes.c_ulonglong(len(sm)), pk)
@@ -111,6 +115,8 @@ class SaltLibNative(SaltLibBase):
             bytes: shared key
 
         """
+        if len(pk) != self.crypto_box_PUBLICKEYBYTES or len(sk) != self.crypto_box_SECRETKEYBYTES:
+            raise ValueError("Invalid key length")
         k = ctypes.create_string_buffer(self.crypto_box_SHAREDKEYBYTES)
         wrap(sodium.crypto_box_beforenm(k, pk, sk))
         return k.raw
@@ -129,6 +135,8 @@ class SaltLibNative(SaltLibBase):
         Returns:
             bytes: ciphertext (encrypted and signed message)
         """
+        if len(n) != self.crypto_box_NONCEBYTES or len(k) != self.crypto_box_SHAREDKEYBYTES:
+            raise ValueError("Invalid nonce or key length")
         padded = (b"\x00"*self.crypto_box_ZEROBYTES) + m
         c = ctypes.create_string_buffer(len(padded))
         wrap(sodium.crypto_box_afternm(c, padded, ctypes.c_ulonglong(len(padded)), n, k))
@@ -150,6 +158,8 @@ class SaltLibNative(SaltLibBase):
         Raises:
             BadEncryptedDataException:
         """
+        if len(n) != self.crypto_box_NONCEBYTES or len(k) != self.crypto_box_SHAREDKEYBYTES:
+            raise BadEncryptedDataException("Invalid nonce or key length")
         padded = (b"\x00"*self.crypto_box_BOXZEROBYTES) + c
         m = ctypes.create_string_buffer(len(padded))
         res = sodium.crypto_box_open_afternm(m, padded, ctypes.c_ulonglong(len(padded)), n, k)
diff --git a/saltchannel/saltlib/saltlib_pynacl.py b/saltchannel/saltlib/saltlib_pynacl.py
index c4b8916..639ad7e 100644
--- a/saltchannel/saltlib/saltlib_pynacl.py
+++ b/saltchannel/saltlib/saltlib_pynacl.py
@@ -34,10 +34,14 @@ class SaltLibPyNaCl(SaltLibBase):
 
     # ret: sm
     def crypto_sign(self, m, sk):
+        if len(sk) != self.crypto_sign_SECRETKEYBYTES:
+            raise ValueError("Invalid secret key length")
         return bindings.crypto_sign(m, sk)
 
     # ret: m
     def crypto_sign_open(self, sm, pk):
+        if len(pk) != self.crypto_sign_PUBLICKEYBYTES:
+            raise BadSignatureException("Invalid public key length")
         try:
             return bindings.crypto_sign_open(sm, pk)
         except Exception as e:
-- 
2.43.0


From 1ee209bb1a0b3cc3abcf0cb5fa49725c90dd730f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:33 +0000
Subject: [PATCH 33/36] fix: a SocketChannel read that timed out inside a
 message lost what it had received

---
 saltchannel/channel.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index 629ef47..0cd3ee1 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -64,6 +64,7 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
 class SocketChannel(ByteChannel):
     def __init__(self, sock):
         self.sock = sock
+        self.recv_buf = bytearray()  # what a failed read (e.g. time-out) has already received
 
     async def read(self):
         return self.read_sync()  # blocking version inside!
@@ -77,10 +78,13 @@ class SocketChannel(ByteChannel):
            if not success:
                raise ComException("Unable to recv size prefix. NOT all requested data were obtained")
            msg_len = struct.unpack('<i', len_buf)
-           msg, success = self.recvall(msg_len[0])
+           if msg_len[0] < 0:
+               raise ComException("Bad size prefix: ", msg_len[0])
+           msg, success = self.recvall(4 + msg_len[0])
            if not success:
                raise ComException("Unable to recv msg. NOT all requested data were obtained")
-           return msg
+           self.recv_buf.clear()
+           return msg[4:]
         except Exception as e:
             raise ComException(e)
 
@@ -95,10 +99,10 @@ class SocketChannel(ByteChannel):
             raise ComException(e)
 
     def recvall(self, count):
-        buf = bytearray()
-        while count:
-            newbuf = self.sock.recv(count)
+        """Fills self.recv_buf up to count bytes."""
+        buf = self.recv_buf
+        while len(buf) < count:
+            newbuf = self.sock.recv(count - len(buf))
             if not newbuf: return (bytes(buf), False)
             buf.extend(newbuf)
-            count -= len(newbuf)
-        return (bytes(buf), True)
\ No newline at end of file
+        return (bytes(buf[:count]), True)
\ No newline at end of file
-- 
2.43.0


From 3380337aec0139a512a94264e8242b0107603ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:05 +0000
Subject: [PATCH 34/36] fix: buffered log records of MitmChannel changed when
 the writer reused its buffer

---
 saltchannel/dev/mitm_channel.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/dev/mitm_channel.py b/saltchannel/dev/mitm_channel.py
index ab6762b..3bf7089 100644
--- a/saltchannel/dev/mitm_channel.py
+++ b/saltchannel/dev/mitm_channel.py
@@ -63,9 +63,9 @@ class MitmChannel(ByteChannel):
             self.counter_write += len(m)
 
         if self.log:
-            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=msg))
+            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=bytes(msg)))
             for m in args:
-                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=m))
+                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=bytes(m)))
 
     def read_sync(self):
         data = self.orig.read_sync()
@@ -81,9 +81,9 @@ class MitmChannel(ByteChannel):
             self.counter_write += len(m)
 
         if self.log:
-            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=msg))
+            self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE, data=bytes(msg)))
             for m in args:
-                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=m))
+                self._log_event(MitmChannel.LogRecord(time=time.perf_counter(), type=MitmEventType.WRITE_WITH_PREVIOUS, data=bytes(m)))
 
 
     def close(self):
-- 
2.43.0


From 94b017bead40a5c832a3376008d698c043df6c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:05:05 +0000
Subject: [PATCH 35/36] fix: messages in a Tunnel changed when the writer
 reused its buffer

---
 saltchannel/dev/tunnel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index e9eee6d..94fd7f3 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -20,7 +20,7 @@ class Tunnel:
 
             async def write(self, msg, *args, is_last=False):
                 for m in (msg,) + args:
-                    out_queue.append(m)
+                    out_queue.append(bytes(m))
         return _Channel()
 
 
-- 
2.43.0


From 4a08cabb83e98f3a4ac0fcec0696225ec8377552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:53 +0000
Subject: [PATCH 36/36] fix: client connections are not reset when many clients
 run at once

The server of MpClientServerPair serves one connection after the other and
its listen queue had room for 5: with more clients waiting, connections
were reset while the clients were in the middle of their sessions.
---
 saltchannel/dev/client_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server.py b/saltchannel/dev/client_server.py
index 62aa436..3d1cb62 100644
--- a/saltchannel/dev/client_server.py
+++ b/saltchannel/dev/client_server.py
@@ -58,7 +58,7 @@ class MpClientServerPair(ClientServerPair):
         return TCPRequestHandler
 
     class TestTCPServer(socketserver.TCPServer):
-        pass
+        request_queue_size = socket.SOMAXCONN  # clients wait there for their turn: a full queue resets them
 
     def __init__(self, session):
         super(MpClientServerPair, self).__init__(session)
-- 
2.43.0

