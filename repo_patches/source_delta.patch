From d5bc10d96a06c76a34f6e74b3f943f0e0be08a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:20 +0000
Subject: [PATCH 01/10] fix: accept component objects in ProviderStats

Their validators say a dictionary or an object is fine, but objects always
failed because they were unpacked like dictionaries.
---
 golem_messages/datastructures/stats.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/golem_messages/datastructures/stats.py b/golem_messages/datastructures/stats.py
index 7cb6001..8c639cc 100644
--- a/golem_messages/datastructures/stats.py
+++ b/golem_messages/datastructures/stats.py
@@ -179,18 +179,26 @@ class ProviderStats(datastructures.Container):
 
     @classmethod
     def deserialize_blkio_stats(cls, value: dict) -> Optional[BlockIoStats]:
+        if isinstance(value, BlockIoStats):
+            return value
         return BlockIoStats(**value) if value else None
 
     @classmethod
     def deserialize_cpu_stats(cls, value: dict) -> Optional[CpuStats]:
+        if isinstance(value, CpuStats):
+            return value
         return CpuStats(**value) if value else None
 
     @classmethod
     def deserialize_memory_stats(cls, value: dict) -> Optional[MemoryStats]:
+        if isinstance(value, MemoryStats):
+            return value
         return MemoryStats(**value) if value else None
 
     @classmethod
     def deserialize_pids_stats(cls, value: dict) -> Optional[PidStats]:
+        if isinstance(value, PidStats):
+            return value
         return PidStats(**value) if value else None
 
     @classmethod
-- 
2.43.0


From a9e715228b32b3de30a88f77287528b4d88404a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:28 +0000
Subject: [PATCH 02/10] fix: report malformed promissory note signatures on
 Python 3.9

NamedTuple lost its _field_types attribute, so the TypeError that should be
raised for a malformed signature came out as an AttributeError.
---
 golem_messages/datastructures/promissory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/datastructures/promissory.py b/golem_messages/datastructures/promissory.py
index 1fd792b..c7c88ab 100644
--- a/golem_messages/datastructures/promissory.py
+++ b/golem_messages/datastructures/promissory.py
@@ -96,7 +96,7 @@ class PromissoryNote:
                 "The provided promissory note sig: `{}` has wrong type. "
                 "Must be a tuple with format: {}".format(
                     promissory_note_sig,
-                    PromissoryNoteSig._field_types,  # noqa pylint: disable=protected-access
+                    PromissoryNoteSig.__annotations__,
                 )
             ) from e
 
-- 
2.43.0


From 69a808aeec089c4b8d00623943842850b20fa58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:43 +0000
Subject: [PATCH 03/10] fix: report invalid file categories as field errors on
 Python 3.8+

Testing a plain value for membership in an enumeration raises a TypeError
there.
---
 golem_messages/message/concents.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/golem_messages/message/concents.py b/golem_messages/message/concents.py
index e198544..5b56693 100644
--- a/golem_messages/message/concents.py
+++ b/golem_messages/message/concents.py
@@ -169,7 +169,7 @@ class FileTransferToken(base.Message):
         }
 
         def validate_category(self, value):
-            if value not in self.Category:
+            if not isinstance(value, self.Category):
                 raise exceptions.FieldError(
                     "`category` must be one of %s, got: " % [
                         c for c in self.Category],
-- 
2.43.0


From 13caab6a0d4d94d01978e7493b813f33165c7cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:53 +0000
Subject: [PATCH 04/10] fix: keep the connection id of received
 StartSessionResponse

The attribute was set before the slots were loaded, which made load_slots()
skip it, so every deserialized message had conn_id None.
---
 golem_messages/message/tasks.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 7ddc479..183b83b 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -723,8 +723,7 @@ class StartSessionResponse(base.Message):
            an answer for a request to start task session
         :param uuid conn_id: connection id for reference
         """
-        self.conn_id = conn_id
-        super().__init__(**kwargs)
+        super().__init__(conn_id=conn_id, **kwargs)
 
 
 @library.register(TASK_MSG_BASE + 26)
-- 
2.43.0


From 5e3ab6c5d2ab43019e35181ea3e252eff9166a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:32 +0000
Subject: [PATCH 05/10] fix: accept empty lists of nested messages

---
 golem_messages/message/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index e939d2b..77abe0d 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -318,7 +318,7 @@ class Message:
                 value=value,
             )
 
-        if value and (is_list != slot_definition.is_list):
+        if value is not None and (is_list != slot_definition.is_list):
             raise exceptions.FieldError(
                 "Invalid nested message format (is_list: {})".format(
                     slot_definition.is_list,
@@ -326,7 +326,7 @@ class Message:
                 field=key,
                 value=value,
             )
-        if value and is_list:
+        if value is not None and is_list:
             if not isinstance(value, list):
                 raise exceptions.FieldError(
                     "Should be List[{}]".format(slot_definition.klass),
-- 
2.43.0


From 1942a4a9ba7bdb2b79a9c340cc439255ba22d41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:27 +0000
Subject: [PATCH 06/10] fix: verify ownership of a ServiceRefused about no task

---
 golem_messages/message/tasks.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/golem_messages/message/tasks.py b/golem_messages/message/tasks.py
index 183b83b..a0bd952 100644
--- a/golem_messages/message/tasks.py
+++ b/golem_messages/message/tasks.py
@@ -113,13 +113,17 @@ class TaskMessage(base.Message):
         owners
         """
         owner_map = {
-            TaskMessage.OWNER_CHOICES.provider:
-                decode_hex(self.task_to_compute.provider_public_key),
-            TaskMessage.OWNER_CHOICES.requestor:
-                decode_hex(self.task_to_compute.requestor_public_key),
             TaskMessage.OWNER_CHOICES.concent:
                 concent_public_key,
         }
+        # e.g. `ServiceRefused` may be related to no task at all
+        if self.task_to_compute is not None:
+            owner_map.update({
+                TaskMessage.OWNER_CHOICES.provider:
+                    decode_hex(self.task_to_compute.provider_public_key),
+                TaskMessage.OWNER_CHOICES.requestor:
+                    decode_hex(self.task_to_compute.requestor_public_key),
+            })
 
         for owner in self.EXPECTED_OWNERS:
             try:
-- 
2.43.0


From 9c8ca552ba48c00a7a0b7dc71195cff28e9dbb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:20 +0000
Subject: [PATCH 07/10] fix: refuse a private key of a wrong length instead of
 retrying forever

---
 golem_messages/cryptography.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/golem_messages/cryptography.py b/golem_messages/cryptography.py
index 20f3152..a92ad51 100644
--- a/golem_messages/cryptography.py
+++ b/golem_messages/cryptography.py
@@ -149,6 +149,8 @@ class ECCx(pyelliptic.ECC):
             # XXX: when raw_privkey is generated by pyelliptic it sometimes
             #      has 31 bytes so we try again!
             if self.raw_privkey and len(self.raw_privkey) != 32:
+                if raw_privkey is not None:
+                    raise exceptions.CryptoError('Invalid privkey length')
                 continue
             if not self.has_valid_keys():
                 raise exceptions.CryptoError('Invalid privkey and/or pubkey')
-- 
2.43.0


From 3b65b58851e228435724dc43c4d446d7d3a8faca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:28 +0000
Subject: [PATCH 08/10] fix: a prerelease of a minor version is compatible with
 itself and its releases

---
 golem_messages/message/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 77abe0d..24bdfb9 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -63,13 +63,13 @@ def verify_version(msg_version):
             )
         ) from e
     ours_v = semantic_version.Version(golem_messages.__version__)
-    spec_str = '>={major}.{minor}.0,<{next_minor}'.format(
+    spec_str = '>={major}.{minor}.0,<{major}.{next_minor}.0'.format(
         major=ours_v.major,
         minor=ours_v.minor,
-        next_minor=ours_v.next_minor(),
+        next_minor=ours_v.minor + 1,
     )
     spec = semantic_version.Spec(spec_str)
-    if theirs_v not in spec:
+    if theirs_v != ours_v and theirs_v not in spec:
         raise exceptions.VersionMismatchError(
             "Incompatible version received:"
             " {ours} (ours) != {theirs} (theirs)".format(
-- 
2.43.0


From d8f215c3665b7608565266e461fcf5de0f9a5f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:46 +0000
Subject: [PATCH 09/10] fix: report malformed message contents as a message
 error

Contents that are decoded but have the wrong shape (a TaskToCompute
without Ethereum key, a SubtaskResultsAccepted without payment time...)
escaped from Message.deserialize as TypeError, AttributeError, etc.
---
 golem_messages/message/base.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/golem_messages/message/base.py b/golem_messages/message/base.py
index 24bdfb9..6daf374 100644
--- a/golem_messages/message/base.py
+++ b/golem_messages/message/base.py
@@ -443,12 +443,17 @@ class Message:
 
         class_ = library[header.type_]
         logger.debug('Deserialization class found. class=%r', class_)
-        return class_.deserialize_with_header(
-            header,
-            data,
-            decrypt_func,
-            sender_public_key=sender_public_key,
-        )
+        try:
+            return class_.deserialize_with_header(
+                header,
+                data,
+                decrypt_func,
+                sender_public_key=sender_public_key,
+            )
+        except exceptions.MessageError:
+            raise
+        except Exception as e:
+            raise exceptions.MessageError("Malformed message") from e
 
     @classmethod
     def deserialize_with_header(
-- 
2.43.0


From 6db4f19ed82f45d75e1931ba6e38f004a5f59f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:49 +0000
Subject: [PATCH 10/10] fix: encode_hex of nothing is an empty text

It raised IndexError. The comparison with '0x' it was for has never been
true, as items of bytes are integers.
---
 golem_messages/utils.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/golem_messages/utils.py b/golem_messages/utils.py
index 2e867d1..6c1e493 100644
--- a/golem_messages/utils.py
+++ b/golem_messages/utils.py
@@ -22,8 +22,6 @@ def encode_hex(b):
     if isinstance(b, str):
         b = bytes(b, 'utf-8')
     if isinstance(b, (bytes, bytearray)):
-        if b[0] == b'0' and b[1] == b'x':
-            b = b[2:]
         return str(binascii.hexlify(b), 'utf-8')
     raise TypeError('Value must be an instance of str or bytes')
 
-- 
2.43.0

