From 9e38038d46ebdb2f32d5b4dbd6bb5149a6e971b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 01/25] fix: NullTimeChecker reports a bad first time as
 BadPeer, not TypeError

---
 saltchannel/util/time.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index 76305f3..f3930e2 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -47,7 +47,7 @@ class NullTimeChecker(TimeChecker):
     """Reports first time. Should be 0 or 1."""
     def report_first_time(self, time):
         if time not in [0,1]:
-            raise BadPeer("bad first time, " + time)
+            raise BadPeer("bad first time, {}".format(time))
 
     """Checks 'time' against this object's clock."""
     def check_time(self, time): pass
-- 
2.43.0


From 8d1b106ff5b09d99a65c8ebfbb6ba78543d1262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 02/25] fix: only the stateless Null time classes are
 singletons

Every TimeKeeper/TimeChecker subclass was a process-wide singleton, so
sessions with their own clocks shared one object.
---
 saltchannel/util/time.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/saltchannel/util/time.py b/saltchannel/util/time.py
index f3930e2..dbb19cb 100644
--- a/saltchannel/util/time.py
+++ b/saltchannel/util/time.py
@@ -3,7 +3,7 @@ from . import SingletonABCMeta
 from ..exceptions import BadPeer
 
 
-class TimeKeeper(metaclass=SingletonABCMeta):
+class TimeKeeper(metaclass=ABCMeta):
     """Keeps time; relative time since first message sent. Measure in milliseconds."""
 
     """Call this first, must return 1 when timing is supported and 0 if not."""
@@ -15,7 +15,7 @@ class TimeKeeper(metaclass=SingletonABCMeta):
     def get_time(self): pass
 
 
-class TimeChecker(metaclass=SingletonABCMeta):
+class TimeChecker(metaclass=ABCMeta):
     """"""
 
     """Reports first time. Should be 0 or 1."""
@@ -27,7 +27,7 @@ class TimeChecker(metaclass=SingletonABCMeta):
     def check_time(self, time): pass
 
 
-class NullTimeKeeper(TimeKeeper):
+class NullTimeKeeper(TimeKeeper, metaclass=SingletonABCMeta):
     """A TimeKeeper implementation that does not keep time.
     get_first_time() and get_time() always returns 0.
     """
@@ -41,7 +41,7 @@ class NullTimeKeeper(TimeKeeper):
         return 0
 
 
-class NullTimeChecker(TimeChecker):
+class NullTimeChecker(TimeChecker, metaclass=SingletonABCMeta):
     """TimeChecker that accepts all time values."""
 
     """Reports first time. Should be 0 or 1."""
-- 
2.43.0


From 332b1692c79645ed45b5bd02d2e73834aaeacbf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 03/25] fix: server answers NoSuchServer to an address query
 for another key

a1.AddressType went through Packet.__getattr__ and yielded bytes, which never
equal ADDRESS_TYPE_PUBKEY. The A1-A2 examples queried a key their server does
not have and relied on that.
---
 saltchannel/dev/example_session2.py   | 2 +-
 saltchannel/dev/example_session2_a.py | 2 +-
 saltchannel/v2/salt_server_session.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/dev/example_session2.py b/saltchannel/dev/example_session2.py
index f1b165c..4138380 100644
--- a/saltchannel/dev/example_session2.py
+++ b/saltchannel/dev/example_session2.py
@@ -29,7 +29,7 @@ SESSION_NUM = 1
 class ExampleSession(Session):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        self.server_sig_keypair = CryptoTestData.bSig._replace(pub=b'\x08' * 32)  # as queried below
         self.server_enc_keypair = CryptoTestData.bEnc
 
     def server_session(self, channel):
diff --git a/saltchannel/dev/example_session2_a.py b/saltchannel/dev/example_session2_a.py
index 51c4c4f..864a3f5 100644
--- a/saltchannel/dev/example_session2_a.py
+++ b/saltchannel/dev/example_session2_a.py
@@ -29,7 +29,7 @@ CLIENT_NUM = 1
 class ExampleSessionA(SessionA):
 
     def __init__(self):
-        self.server_sig_keypair = CryptoTestData.bSig
+        self.server_sig_keypair = CryptoTestData.bSig._replace(pub=b'\x08' * 32)  # as queried below
         self.server_enc_keypair = CryptoTestData.bEnc
 
     async def server_session(self, reader, writer):
diff --git a/saltchannel/v2/salt_server_session.py b/saltchannel/v2/salt_server_session.py
index f35532a..5d4753e 100644
--- a/saltchannel/v2/salt_server_session.py
+++ b/saltchannel/v2/salt_server_session.py
@@ -67,7 +67,7 @@ class SaltServerSession(metaclass=util.Syncizer):
 
     async def do_a2(self, data_chunk):
         a1 = A1Packet(src_buf=data_chunk)
-        if a1.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
+        if a1.data.AddressType == A1Packet.ADDRESS_TYPE_PUBKEY and a1.Address != self.sig_keypair.pub:
             a2 = A2Packet(case=A2Packet.Case.A2_NO_SUCH_SERVER)
         elif self.a2:
             a2 = self.a2  # use injected a2
-- 
2.43.0


From fe8321d404a5c67501cc4a9e556e176347bbf3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 04/25] fix: reject empty and truncated packets instead of
 zero-padding them

---
 saltchannel/a1a2/packets.py |  4 ++--
 saltchannel/util/packets.py |  5 +++--
 saltchannel/v2/packets.py   | 14 +++++++-------
 3 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 3ec6e49..9b0bb3d 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -35,7 +35,7 @@ class A1Packet(Packet):
         self.data.Header.PacketType = type(self).TYPE
         self.data.AddressType = type(self).ADDRESS_TYPE_ANY
         self.data.AddressSize = 0
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -132,7 +132,7 @@ class A2Packet(Packet):
             self.opt.Prot[0].P1 = util.cbytes(self.SC2_PROT_STRING)
             self.opt.Prot[0].P2 = util.cbytes(self.UNSPECIFIED_PROT_STRING)
             return
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
diff --git a/saltchannel/util/packets.py b/saltchannel/util/packets.py
index 47795cb..8ab1b7d 100644
--- a/saltchannel/util/packets.py
+++ b/saltchannel/util/packets.py
@@ -33,8 +33,9 @@ class SmartStructure(LittleEndianStructure):
         super().__init__(**values)
 
     def from_bytes(self, src):
-        if src:
-            memmove(addressof(self), src, min(len(src), sizeof(self)))
+        if len(src) < sizeof(self):
+            raise BadPeer("packet too short: ", len(src))
+        memmove(addressof(self), src, sizeof(self))
 
     @property
     def size(self):
diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index a9b3a0a..52f038a 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -39,7 +39,7 @@ class M1Packet(Packet):
         self.data = M1Packet._M1PacketBody()
         self.data.Header.PacketType = type(self).TYPE
         self.opt = self._opt_factory()
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -93,7 +93,7 @@ class M2Packet(Packet):
         super().__init__()
         self.data = M2Packet._M2PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def __bytes__(self):
@@ -127,7 +127,7 @@ class M3Packet(Packet):
         super().__init__()
         self.data = M3Packet._M3PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -152,7 +152,7 @@ class M4Packet(Packet):
         super().__init__()
         self.data = M4Packet._M4PacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
 
@@ -187,7 +187,7 @@ class EncryptedPacket(Packet):
         super().__init__()
         self.data = EncryptedPacket._EncryptedPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf)
 
     def from_bytes(self, src, validate=True):
@@ -240,7 +240,7 @@ class AppPacket(Packet):
         super().__init__()
         self.data = AppPacket._AppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
@@ -319,7 +319,7 @@ class MultiAppPacket(Packet):
         super().__init__()
         self.data = MultiAppPacket._MultiAppPacketBody()
         self.data.Header.PacketType = type(self).TYPE
-        if src_buf:
+        if src_buf is not None:
             self.from_bytes(src_buf, validate=validate)
 
     def from_bytes(self, src, validate=True):
-- 
2.43.0


From 282ff8a0137cb1b682ee2a534c88557c653a5253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 05/25] fix: reject MultiAppPacket whose messages overrun the
 packet

---
 saltchannel/v2/packets.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 52f038a..05b5de8 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -294,8 +294,12 @@ class MultiAppPacket(Packet):
                 # deserialize manually now
                 cnt = offset = 0
                 while cnt < count:
+                    if len(src) - offset < sizeof(c_uint16):
+                        raise BadPeer("message length field is truncated")
                     length_field = c_uint16.from_buffer_copy(src, offset)
                     offset += sizeof(c_uint16)
+                    if len(src) - offset < length_field.value:
+                        raise BadPeer("message is truncated")
                     self.Message.append(src[offset:offset+length_field.value])
                     offset += length_field.value
                     cnt += 1
-- 
2.43.0


From bf288b9d843c9bdab57cbacc05fe1c062b48c497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 06/25] fix: do not pack more than 65535 messages in one
 MultiAppPacket

The 16-bit Count field wrapped and messages were lost.
---
 saltchannel/v2/packets.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/packets.py b/saltchannel/v2/packets.py
index 05b5de8..1a133b3 100644
--- a/saltchannel/v2/packets.py
+++ b/saltchannel/v2/packets.py
@@ -342,7 +342,8 @@ class MultiAppPacket(Packet):
 
     @staticmethod
     def should_use(msgs):
-        return False if len(msgs) < 2 or any(len(msg) > MultiAppPacket.MAX_SIZE for msg in msgs) else True
+        # Count and Length are 16-bit fields
+        return 2 <= len(msgs) <= MultiAppPacket.MAX_SIZE and all(len(msg) <= MultiAppPacket.MAX_SIZE for msg in msgs)
 
 # leave here for now
 class TTPacket(Packet):
-- 
2.43.0


From 8983488c59b6624ebab59f66bf66eb7ec29308a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 07/25] fix: match A2 protocol strings as bytes

Decoding raised UnicodeDecodeError on peer data, non-ASCII letters and a
trailing newline were accepted.
---
 saltchannel/a1a2/packets.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/packets.py b/saltchannel/a1a2/packets.py
index 9b0bb3d..5d209de 100644
--- a/saltchannel/a1a2/packets.py
+++ b/saltchannel/a1a2/packets.py
@@ -103,13 +103,13 @@ class A2Packet(Packet):
         class _A2Prot(SmartStructure):
             _fields_ = [("P1", c_uint8 * A2Packet.P_SIZE),
                         ("P2", c_uint8 * A2Packet.P_SIZE)]
-            proto_re = re.compile(r'^[-./\w]+$')  # used for p-string validation
+            proto_re = re.compile(rb'^[-./\w]+\Z')  # used for p-string validation
 
             def validate(self):
                 if len(self.P1) != A2Packet.P_SIZE or len(self.P2) != A2Packet.P_SIZE:
                     return False
-                return True if (type(self).proto_re.match(bytes(self.P1).decode()) and
-                                type(self).proto_re.match(bytes(self.P2).decode())) else False
+                return True if (type(self).proto_re.match(bytes(self.P1)) and
+                                type(self).proto_re.match(bytes(self.P2))) else False
 
         class _A2PacketBodyOpt(SmartStructure):
             # A2Packet opt/variable fields
-- 
2.43.0


From d612d571f241457a5f4b847f1981b4391ed44440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 08/25] fix: client reports an M3 of wrong size as BadPeer, not
 AssertionError

---
 saltchannel/v2/salt_client_session.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 5718722..bcd8077 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -84,7 +84,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     async def do_m3(self):
         chunk = await self.enc_channel.read()
-        assert(len(chunk) == 2+4+32+64)
+        if len(chunk) != 2+4+32+64:
+            raise saltchannel.exceptions.BadPeer("bad M3 size: ", len(chunk))
         self.m3 = packets.M3Packet(src_buf=chunk)
         self.time_checker.check_time(self.m3.data.Time)
 
-- 
2.43.0


From d4f976c2784d80a0a56e1bd1b1e898548c9f9ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 09/25] fix: client honours wanted_server_sig_key

It was neither sent in M1 nor compared with the key of the server in M3.
---
 saltchannel/v2/salt_client_session.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index bcd8077..437fedc 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -56,7 +56,11 @@ class SaltClientSession(metaclass=util.Syncizer):
     async def do_m1(self):
         """Creates and writes M1 message."""
         self.m1 = packets.M1Packet()
+        if self.wanted_server_sig_key:
+            self.m1.data.Header.ServerSigKeyIncluded = 1
         self.m1.create_opt_fields()
+        if self.wanted_server_sig_key:
+            self.m1.ServerSigKey = self.wanted_server_sig_key
         self.m1.data.Time = self.time_keeper.get_first_time()
         self.m1.ClientEncKey = self.enc_keypair.pub
 
@@ -103,6 +107,8 @@ class SaltClientSession(metaclass=util.Syncizer):
 
     def validate_signature1(self):
         """Validates M3/Signature1."""
+        if self.wanted_server_sig_key and self.m3.ServerSigKey != self.wanted_server_sig_key:
+            raise saltchannel.exceptions.BadPeer("server has another signing key than the wanted one")
         try:
             self.saltlib.sign_open(b''.join([self.m3.Signature1, packets.M3Packet.SIG1_PREFIX,
                                             self.m1_hash, self.m2_hash]), self.m3.ServerSigKey)
-- 
2.43.0


From e9e8d49d6223c04426c1cfc0393291d2d05027fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 10/25] fix: a peer key that key agreement refuses is BadPeer,
 not ValueError

---
 saltchannel/saltlib/saltlib.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 8f8d401..517ce28 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -7,6 +7,7 @@ from .saltlib_native import SaltLibNative
 from .saltlib_pynacl import SaltLibPyNaCl
 from .saltlib_tweetnaclext import SaltLibTweetNaClExt
 from .exceptions import NoSuchLibException
+from ..exceptions import BadPeer
 
 from ..util.key_pair import KeyPair
 
@@ -78,7 +79,10 @@ class SaltLib(metaclass=Singleton):
             raise ValueError("bad length of my_priv: ", len(my_sk))
         if len(peer_pk) != self.api.crypto_box_PUBLICKEYBYTES:
             raise ValueError("bad length of peer_pub: ", len(peer_pk))
-        return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        try:
+            return self.api.crypto_box_beforenm(peer_pk, my_sk)
+        except Exception as e:  # e.g. a low order point
+            raise BadPeer("bad peer_pub: ", e)
 
     def encrypt(self, key, nonce, msg):
         return self.api.crypto_box_afternm(msg, nonce, key)
-- 
2.43.0


From 9ae02f111adf14db0c4b03567efff7427d794c8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 11/25] fix: AsyncioChannel reports transport failures as
 ComException

---
 saltchannel/channel.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/saltchannel/channel.py b/saltchannel/channel.py
index c1e0431..a8f54a9 100644
--- a/saltchannel/channel.py
+++ b/saltchannel/channel.py
@@ -44,12 +44,18 @@ class AsyncioChannel(ByteChannel, metaclass=util.Syncizer):
         self.writer = writer
 
     async def read(self):
-        return await self.reader.read_msg()
+        try:
+            return await self.reader.read_msg()
+        except (EOFError, OSError, ValueError) as e:
+            raise ComException(e)
 
     async def write(self, msg, *args, is_last=False):
-        for m in (msg,) + args:
-            self.writer.write_msg(m)
-        await self.writer.drain()
+        try:
+            for m in (msg,) + args:
+                self.writer.write_msg(m)
+            await self.writer.drain()
+        except OSError as e:
+            raise ComException(e)
 
     def close(self):
         self.writer.close()
-- 
2.43.0


From 32f05618d2cb1194c454ee98e8aebac3f68ea917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 12/25] fix: SaltLib.getLib returns the requested or the first
 available library

It returned None for an explicit type and gave up at the first unavailable one.
---
 saltchannel/saltlib/saltlib.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/saltchannel/saltlib/saltlib.py b/saltchannel/saltlib/saltlib.py
index 517ce28..dcc18d9 100644
--- a/saltchannel/saltlib/saltlib.py
+++ b/saltchannel/saltlib/saltlib.py
@@ -42,10 +42,8 @@ class SaltLib(metaclass=Singleton):
             for t, api in sorted(SaltLib.lib_map.items()):
                 if api.isAvailable():
                     return api
-                else:
-                    raise NoSuchLibException
-            else:
-                return SaltLib.lib_map[lib_type]
+            raise NoSuchLibException
+        return SaltLib.lib_map[lib_type.value]
 
     @staticmethod
     def random_bytes(n):
-- 
2.43.0


From 59ca129c1c14247b4b46526820e9a08f63fb5519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 13/25] fix: SaltLibNative.randombytes crashed the process

---
 saltchannel/saltlib/saltlib_native.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index d4c17ee..cd759ae 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -172,4 +172,6 @@ class SaltLibNative(SaltLibBase):
 
 
     def randombytes(self, n):
-        return sodium.randombytes(n)
\ No newline at end of file
+        buf = ctypes.create_string_buffer(n)
+        sodium.randombytes_buf(buf, ctypes.c_size_t(n))
+        return buf.raw
\ No newline at end of file
-- 
2.43.0


From aa5ecfe3b569802a22657875a7525750a923c2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 14/25] fix: EncryptedChannelV2 has working blocking methods

read_sync and write_sync did nothing and returned None.
---
 saltchannel/v2/encrypted_channel_v2.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index fba49ba..1eb9a20 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -2,6 +2,7 @@ from enum import Enum
 
 from ..saltlib import SaltLib
 from ..saltlib import BadEncryptedDataException, BadSignatureException
+import saltchannel.util as util
 from ..channel import ByteChannel
 from .packets import EncryptedPacket, TTPacket
 from ..exceptions import BadPeer
@@ -32,7 +33,7 @@ class Nonce:
         return b''.join([self.value.to_bytes(8, 'little'), self.session_nonce, bytes(8)])
 
 
-class EncryptedChannelV2(ByteChannel):
+class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
     """An implementation of an encrypted channel using a shared symmetric session key.
     The read/write methods throws ComException for low-level IO errors
     and BadPeer if the data format is not OK or if the data is not
-- 
2.43.0


From e18e493ad8f26c5fc9e86abcece18458e8439ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 15/25] fix: client sessions can be created in threads without
 event loop

---
 saltchannel/a1a2/a1_client_session.py | 4 ++--
 saltchannel/v2/salt_client_session.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/a1a2/a1_client_session.py b/saltchannel/a1a2/a1_client_session.py
index 467c4c5..b81ca49 100644
--- a/saltchannel/a1a2/a1_client_session.py
+++ b/saltchannel/a1a2/a1_client_session.py
@@ -1,11 +1,11 @@
-import asyncio
+import saltchannel.util as util
 from . import packets
 
 
 class A1ClientSession:
     """"""
     def __init__(self, channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.channel = channel
         self.a1 = packets.A1Packet()
diff --git a/saltchannel/v2/salt_client_session.py b/saltchannel/v2/salt_client_session.py
index 437fedc..472671b 100644
--- a/saltchannel/v2/salt_client_session.py
+++ b/saltchannel/v2/salt_client_session.py
@@ -15,7 +15,7 @@ class SaltClientSession(metaclass=util.Syncizer):
     Asyncio-based implementation
     """
     def __init__(self, sig_keypair, clear_channel, loop=None):
-        self.loop = loop or asyncio.get_event_loop()
+        self.loop = util.force_event_loop(loop=loop)
 
         self.saltlib = SaltLib()
         self.sig_keypair = sig_keypair
-- 
2.43.0


From 4df7430bdc7bdf0da4bb5ea3e40a7938db684e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 16/25] fix: tunnel channels implement the ByteChannel
 interface

read and write were no coroutines, write raised TypeError.
---
 saltchannel/dev/tunnel.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/saltchannel/dev/tunnel.py b/saltchannel/dev/tunnel.py
index 002e3a6..2178cf7 100644
--- a/saltchannel/dev/tunnel.py
+++ b/saltchannel/dev/tunnel.py
@@ -1,6 +1,7 @@
 from collections import deque
 from multiprocessing import Pipe
 from saltchannel.channel import ByteChannel
+import saltchannel.util as util
 
 
 class Tunnel:
@@ -13,12 +14,12 @@ class Tunnel:
 
     @staticmethod
     def _channel_factory(in_queue, out_queue):
-        class _Channel(ByteChannel):
-            def read(self):
+        class _Channel(ByteChannel, metaclass=util.Syncizer):
+            async def read(self):
                 return in_queue.popleft()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            async def write(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     out_queue.append(m)
         return _Channel()
 
@@ -31,11 +32,11 @@ class TunnelMP:
 
     @staticmethod
     def _channel_factory(endpoint):
-        class _Channel(ByteChannel):
-            def read(self):
+        class _Channel(ByteChannel, metaclass=util.Syncizer):
+            async def read(self):
                 return endpoint.recv_bytes()
 
-            def write(self, msg, *args, is_last=False):
-                for m in msg + args:
+            async def write(self, msg, *args, is_last=False):
+                for m in (msg,) + args:
                     endpoint.send_bytes(m)
         return _Channel()
\ No newline at end of file
-- 
2.43.0


From 07ba9ebfb94c5442223c1e3434a08c0ae0d1e24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:00 +0000
Subject: [PATCH 17/25] fix: MitmChannel keeps log records while log_buffering
 is on

---
 saltchannel/dev/mitm_channel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/saltchannel/dev/mitm_channel.py b/saltchannel/dev/mitm_channel.py
index 36ee713..73271af 100644
--- a/saltchannel/dev/mitm_channel.py
+++ b/saltchannel/dev/mitm_channel.py
@@ -45,9 +45,9 @@ class MitmChannel(ByteChannel):
                 self.log.info('{:0.6f} +{:0.6f}, {:s}, len(msg):{:d}, msg: b\'{:s}\''
                             .format(log_record.time, log_record.time-self.time0, log_record.type,
                                     len(log_record.data), log_record.data.hex()))
-            else:
-                self.queue.append(log_record)
-        self.time0 = log_record.time
+            self.time0 = log_record.time
+        else:
+            self.queue.append(log_record)
 
     async def read(self):
         data = await self.orig.read()
-- 
2.43.0


From 4f3fb096ed34f676dc085573f6b866e0f0878419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:21 +0000
Subject: [PATCH 18/25] fix: cancelling read_msg() keeps the message stream
 intact

A read cancelled between size prefix and message body lost the prefix, so
every later message was misread.
---
 saltchannel/dev/client_server_a.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index 0a2dbe7..e7ca102 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -14,9 +14,14 @@ class SaltChannelStreamWriter(streams.StreamWriter):
         self.write(b''.join([struct.pack('<i', len(msg)), bytes(msg)]))
 
 class SaltChannelStreamReader(streams.StreamReader):
+    _msg_len = None  # size prefix already consumed by a cancelled read_msg()
+
     async def read_msg(self):
-        msg_len = struct.unpack('<i', await self.readexactly(4))
-        return b'' if not msg_len else await self.readexactly(msg_len[0])
+        if self._msg_len is None:
+            self._msg_len = struct.unpack('<i', await self.readexactly(4))[0]
+        msg = await self.readexactly(self._msg_len)
+        self._msg_len = None
+        return msg
 
 
 class SaltChannelStreamReaderProtocol(streams.StreamReaderProtocol):
-- 
2.43.0


From ccbd566ad6cb934d3ff5bf2b7e5072243dc54660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:45 +0000
Subject: [PATCH 19/25] fix: asyncio client-server pair runs on Python 3.10 and
 later

asyncio.wait() no longer takes a loop argument, so every run_sessions()
ended in a TypeError.
---
 saltchannel/dev/client_server_a.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server_a.py b/saltchannel/dev/client_server_a.py
index e7ca102..9b42c6b 100644
--- a/saltchannel/dev/client_server_a.py
+++ b/saltchannel/dev/client_server_a.py
@@ -102,7 +102,7 @@ class ClientServerPairA:
             loop.run_in_executor(ProcessPoolExecutor(max_workers=self.client_num+1), self._spawn_client_process))
             for x in range(self.client_num)]
         while futures:
-            done, futures = await asyncio.wait(futures, loop=loop, return_when=asyncio.ALL_COMPLETED)
+            done, futures = await asyncio.wait(futures, return_when=asyncio.ALL_COMPLETED)
             for f in done:
                 await f
 
-- 
2.43.0


From 4e391e8fe4552de4e910cdbe8dea5246706b2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:34 +0000
Subject: [PATCH 20/25] fix: echo example logs the message it sends, not
 another random one

---
 saltchannel/dev/simple_echo_session.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/simple_echo_session.py b/saltchannel/dev/simple_echo_session.py
index 41d6301..47e9c64 100644
--- a/saltchannel/dev/simple_echo_session.py
+++ b/saltchannel/dev/simple_echo_session.py
@@ -22,7 +22,7 @@ class SimpleEchoSession(Session):
 
     def client_session(self, channel):
         data = os.urandom(6)
-        data_str = codecs.encode(os.urandom(6), "hex")
+        data_str = codecs.encode(data, "hex")
         for i in range(CLIENT_SEND_LOOPS):
             logging.info("[CLIENT] ReqNo:{},  Sending:  {}".format(i, data_str))
             channel.write_sync(data)
-- 
2.43.0


From b6bf1a328ddc6754c2030d070202fa9d0663807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:30 +0000
Subject: [PATCH 21/25] fix: back ends refuse keys and nonces of the wrong size

libsodium was handed the pointers unchecked, so that shorter keys or nonces
were read past their end.
---
 saltchannel/saltlib/saltlib_native.py | 10 ++++++++++
 saltchannel/saltlib/saltlib_pynacl.py |  4 ++++
 2 files changed, 14 insertions(+)

diff --git a/saltchannel/saltlib/saltlib_native.py b/saltchannel/saltlib/saltlib_native.py
index cd759ae..cc2363d 100644
--- a/saltchannel/saltlib/saltlib_native.py
+++ b/saltchannel/saltlib/saltlib_native.py
@@ -53,6 +53,8 @@ class SaltLibNative(SaltLibBase):
         Returns:
             bytes: signed message
         """
+        if len(sk) != self.crypto_sign_SECRETKEYBYTES:
+            raise ValueError("Invalid secret key length")
         sm = ctypes.create_string_buffer(len(m) + self.crypto_sign_BYTES)
         smlen = ctypes.c_ulonglong()
         wrap(sodium.crypto_sign(sm, ctypes.byref(smlen), m, ctypes.c_ulonglong(len(m)), sk))
@@ -71,6 +73,8 @@ class SaltLibNative(SaltLibBase):
         Raises:
             BadSignatureException:
         """
+        if len(pk) != self.crypto_sign_PUBLICKEYBYTES:
+            raise BadSignatureException()
         m = ctypes.create_string_buffer(len(sm))
         mlen = ctypes.c_ulonglong()
         res = sodium.crypto_sign_open(m, ctypes.byref(mlen), sm, ctypes.c_ulonglong(len(sm)), pk)
@@ -108,6 +112,8 @@ class SaltLibNative(SaltLibBase):
             bytes: shared key
 
         """
+        if len(pk) != self.crypto_box_PUBLICKEYBYTES or len(sk) != self.crypto_box_SECRETKEYBYTES:
+            raise ValueError("Invalid key length")
         k = ctypes.create_string_buffer(self.crypto_box_SHAREDKEYBYTES)
         wrap(sodium.crypto_box_beforenm(k, pk, sk))
         return k.raw
@@ -126,6 +132,8 @@ class SaltLibNative(SaltLibBase):
         Returns:
             bytes: ciphertext (encrypted and signed message)
         """
+        if len(n) != self.crypto_box_NONCEBYTES or len(k) != self.crypto_box_SHAREDKEYBYTES:
+            raise ValueError("Invalid nonce or key length")
         padded = (b"\x00"*self.crypto_box_ZEROBYTES) + m
         c = ctypes.create_string_buffer(len(padded))
         wrap(sodium.crypto_box_afternm(c, padded, ctypes.c_ulonglong(len(padded)), n, k))
@@ -147,6 +155,8 @@ class SaltLibNative(SaltLibBase):
         Raises:
             BadEncryptedDataException:
         """
+        if len(n) != self.crypto_box_NONCEBYTES or len(k) != self.crypto_box_SHAREDKEYBYTES:
+            raise BadEncryptedDataException()
         padded = (b"\x00"*self.crypto_box_BOXZEROBYTES) + c
         m = ctypes.create_string_buffer(len(padded))
         res = sodium.crypto_box_open_afternm(m, padded, ctypes.c_ulonglong(len(padded)), n, k)
diff --git a/saltchannel/saltlib/saltlib_pynacl.py b/saltchannel/saltlib/saltlib_pynacl.py
index 747f8b3..32a8b64 100644
--- a/saltchannel/saltlib/saltlib_pynacl.py
+++ b/saltchannel/saltlib/saltlib_pynacl.py
@@ -31,10 +31,14 @@ class SaltLibPyNaCl(SaltLibBase):
 
     # ret: sm
     def crypto_sign(self, m, sk):
+        if len(sk) != self.crypto_sign_SECRETKEYBYTES:
+            raise ValueError("Invalid secret key length")
         return bindings.crypto_sign(m, sk)
 
     # ret: m
     def crypto_sign_open(self, sm, pk):
+        if len(pk) != self.crypto_sign_PUBLICKEYBYTES:
+            raise BadSignatureException()
         try:
             return bindings.crypto_sign_open(sm, pk)
         except Exception as e:
-- 
2.43.0


From 413c71795ee1d63f046b18cebc07614d8d16f23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:31 +0000
Subject: [PATCH 22/25] fix: encrypted channel refuses a bad key size with
 ValueError

---
 saltchannel/v2/encrypted_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index 1eb9a20..35e5f9b 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -45,7 +45,7 @@ class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
         self.saltlib = SaltLib().getLib()  # refactor to self.salt ?
 
         if len(key) != self.saltlib.crypto_box_SECRETKEYBYTES:
-            raise ValueError("bad key size, should be " + self.saltlib.crypto_box_SECRETKEYBYTES)
+            raise ValueError("bad key size, should be ", self.saltlib.crypto_box_SECRETKEYBYTES)
 
         self.key = key
         self.channel = channel
-- 
2.43.0


From 22b54dba6e243bf705ec47abafdf5065cec29c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:38 +0000
Subject: [PATCH 23/25] fix: a write refused for its messages keeps the
 buffered M4

---
 saltchannel/v2/app_channel_v2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/v2/app_channel_v2.py b/saltchannel/v2/app_channel_v2.py
index 5a72230..b92f880 100644
--- a/saltchannel/v2/app_channel_v2.py
+++ b/saltchannel/v2/app_channel_v2.py
@@ -46,7 +46,6 @@ class AppChannelV2(ByteChannel, metaclass=util.Syncizer):
         if self.buffered_m4:
             self.buffered_m4.data.Time = current_time
             rawmsg_list.append(bytes(self.buffered_m4))
-            self.buffered_m4 = None
 
         if MultiAppPacket.should_use(msgs):
             map = MultiAppPacket()
@@ -61,4 +60,5 @@ class AppChannelV2(ByteChannel, metaclass=util.Syncizer):
                 ap.Data = msg
                 rawmsg_list.append(bytes(ap))
 
+        self.buffered_m4 = None  # not before the messages turned out to be serialisable
         await self.channel.write(rawmsg_list[0], *(rawmsg_list[1:]), is_last=is_last)
-- 
2.43.0


From bdbe5eda256fbc701b351250c438dea9bcd60203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:17:34 +0000
Subject: [PATCH 24/25] fix: a refused batch on the encrypted channel uses up
 no nonces

---
 saltchannel/v2/encrypted_channel_v2.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/saltchannel/v2/encrypted_channel_v2.py b/saltchannel/v2/encrypted_channel_v2.py
index 35e5f9b..783f188 100644
--- a/saltchannel/v2/encrypted_channel_v2.py
+++ b/saltchannel/v2/encrypted_channel_v2.py
@@ -68,6 +68,8 @@ class EncryptedChannelV2(ByteChannel, metaclass=util.Syncizer):
 
     async def write(self, message, *args, is_last=False):
         msgs = (message,) + args
+        for msg in msgs:
+            memoryview(msg)  # TypeError for what is no byte string, before a nonce is used
         msg_list = []
         for i, msg in enumerate(msgs):
             msg_list.append(self.wrap(self.encrypt(msg), is_last=(is_last and int(i) == len(msgs)-1)))
-- 
2.43.0


From bc912906572fff05443205095a592db2ef5d37e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:03 +0000
Subject: [PATCH 25/25] fix: clients that start at once do not overflow the
 pair's listen queue

---
 saltchannel/dev/client_server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/saltchannel/dev/client_server.py b/saltchannel/dev/client_server.py
index 62aa436..de7dd97 100644
--- a/saltchannel/dev/client_server.py
+++ b/saltchannel/dev/client_server.py
@@ -58,7 +58,7 @@ class MpClientServerPair(ClientServerPair):
         return TCPRequestHandler
 
     class TestTCPServer(socketserver.TCPServer):
-        pass
+        request_queue_size = 128  # clients that start at once all wait here for their turn
 
     def __init__(self, session):
         super(MpClientServerPair, self).__init__(session)
-- 
2.43.0

