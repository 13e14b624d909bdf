From 86e381b9c8156127d633555aca634616c665af8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 01/29] fix: write request frame addresses little-endian, as
 they are parsed

---
 elgas/frames.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/frames.py b/elgas/frames.py
index f05abdd..3664b64 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -33,9 +33,9 @@ class Request:
         out.append(self.TYPE)
         out.append(self.service)
         out.extend(self.length.to_bytes(2, "little"))
-        out.extend(self.destination_address_1.to_bytes(2, "big"))
+        out.extend(self.destination_address_1.to_bytes(2, "little"))
         out.append(self.destination_address_2)
-        out.extend(self.source_address_1.to_bytes(2, "big"))
+        out.extend(self.source_address_1.to_bytes(2, "little"))
         out.append(self.source_address_2)
         out.extend(self.data)
         redundancy_source = out[1:]
-- 
2.43.0


From dea251ae98376e145e6b530974e94bdf8acaa91d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 02/29] fix: decode all four bytes of the oldest record id in
 archive responses

---
 elgas/application.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/application.py b/elgas/application.py
index 6c84247..d10f0cf 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -253,7 +253,7 @@ class ReadArchiveByTimeResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
@@ -296,7 +296,7 @@ class ReadArchiveResponse:
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
         archive = constants.Archive(in_bytes[0])
-        oldest_record_id = int.from_bytes(in_bytes[1:4], "little")
+        oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
         return cls(
             archive=archive,
-- 
2.43.0


From 4798fca3fe6a6c9de4c3ee7113f9c61eb1a3b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:28 +0000
Subject: [PATCH 03/29] fix: WriteTimeResponse belongs to the write-time
 service

---
 elgas/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/application.py b/elgas/application.py
index d10f0cf..57c993c 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -160,7 +160,7 @@ class WriteTimeResponse:
 
     service: ClassVar[
         constants.ServiceNumber
-    ] = constants.ServiceNumber.READ_DEVICE_TIME
+    ] = constants.ServiceNumber.WRITE_DEVICE_TIME
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
-- 
2.43.0


From 01dba6d75a3bc72871cd47220c116a0032d6877d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 04/29] fix: refuse timestamps whose year does not fit in two
 BCD digits

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index 7845e6b..e3689b1 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -212,6 +212,8 @@ def datetime_to_bytes(timestamp: datetime) -> bytes:
     """
     Packs a datetime into a BCD encoded format
     """
+    if not 2000 <= timestamp.year <= 2099:
+        raise ValueError(f"Only years 2000-2099 can be encoded, got {timestamp.year}")
     out = bytearray()
     out.extend(to_bdc(timestamp.second))
     out.extend(to_bdc(timestamp.minute))
-- 
2.43.0


From 4b183e390c453e0442c3c99ffb9c446153ef624d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 05/29] fix: refuse frames too short to hold all header fields

---
 elgas/frames.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/frames.py b/elgas/frames.py
index 3664b64..30f13ce 100644
--- a/elgas/frames.py
+++ b/elgas/frames.py
@@ -54,6 +54,8 @@ class Request:
             raise ValueError("Data does not end with end char")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
+        if length < 15:
+            raise ValueError("Data is too short to be a complete frame")
         if length != len(in_bytes) - 1:  # STX is not counted
             raise ValueError(
                 f"Length field does not correspond to length of data. Got {len(in_bytes)-1}, should be {length} "
@@ -136,6 +138,8 @@ class Response:
             raise ValueError("Data does not end with end char")
         service = constants.ServiceNumber(int.from_bytes(in_bytes[3:4], "little"))
         length = int.from_bytes(in_bytes[4:6], "little")
+        if length < 15:
+            raise ValueError("Data is too short to be a complete frame")
         if length != len(in_bytes) - 1:  # STX is not counted
             raise ValueError(
                 f"Length field does not correspond to length of data. Got {len(in_bytes)-1}, should be {length} "
-- 
2.43.0


From d6035a4856937adc47d7497c51d821204d15fe3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 06/29] fix: refuse short or wrongly keyed encrypted data with
 a ValueError

---
 elgas/security.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgas/security.py b/elgas/security.py
index b57110e..960a4af 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -69,11 +69,16 @@ class CipherContext:
         return header + cipher_text
 
     def decrypt(self, in_data: bytes):
+        if len(in_data) < 3:
+            raise ValueError("Encrypted data is too short to hold its header")
         header = in_data[:3]
         encrypted = in_data[3:]
         original_length = int.from_bytes(header[:2], "little")
         key_id = header[2]
-        assert key_id == self.key_id
+        if key_id != self.key_id:
+            raise ValueError(
+                f"Data is encrypted with key id {key_id}, should be {self.key_id}"
+            )
         decrypted_data = decrypt(encrypted, self.key, self.key)
         crc = decrypted_data[-2:]
         for_crc = bytearray()
-- 
2.43.0


From 06477001ec6b9dcb7aa2505291677c1ae4666040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 07/29] fix: refuse encrypted data whose length header exceeds
 its content

---
 elgas/security.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/security.py b/elgas/security.py
index 960a4af..9b7a7bd 100644
--- a/elgas/security.py
+++ b/elgas/security.py
@@ -91,6 +91,8 @@ class CipherContext:
             raise ValueError(
                 f"Incorrect CRC in encrypted data. Got {crc} should be {correct_crc} "
             )
+        if original_length > len(decrypted_data) - 2:
+            raise ValueError("Length of the original data exceeds the encrypted data")
         original_data = decrypted_data[:original_length]
         return original_data
 
-- 
2.43.0


From ea9858671751036775fca85e98dcdb80c4c394a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 08/29] fix: refuse parameter records whose length does not fit
 the data

---
 elgas/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parser.py b/elgas/parser.py
index 2c23eb5..96afc02 100644
--- a/elgas/parser.py
+++ b/elgas/parser.py
@@ -34,6 +34,10 @@ class ScadaParameterParser:
             object_type = elgas.parameters.enumerations.ParameterObjectType(
                 working_data.pop(0)
             )
+            if not 3 <= length <= len(working_data) + 3:
+                raise ValueError(
+                    f"Object length {length} does not fit the remaining data"
+                )
             data = working_data[: length - 3]
             object_list.append(
                 elgas.parameters.factory.ParameterFactory.from_bytes(object_type, data)
-- 
2.43.0


From b73035bff6cc0e912ef6455d56bd36afc0fe39c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 09/29] fix: register the correction counter in the parameter
 factories

---
 elgas/parameters/factory.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/parameters/factory.py b/elgas/parameters/factory.py
index 6a86d73..6f456cf 100644
--- a/elgas/parameters/factory.py
+++ b/elgas/parameters/factory.py
@@ -33,6 +33,8 @@ from elgas.parameters.difference_counter import (
 from elgas.parameters.energy import Energy, EnergySchema, ErrorEnergy, ErrorEnergySchema
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.parameters.error_counter import (
+    CorrectionCounter,
+    CorrectionCounterSchema,
     DoubleErrorCounter,
     DoubleErrorCounterSchema,
     ErrorCounter,
@@ -95,6 +97,7 @@ class ParameterFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounter,
         ParameterObjectType.COMPRESSIBILITY: Compressibility,
         ParameterObjectType.TIME_WINDOW: TimeWindow,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounter,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounter,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounter,
         ParameterObjectType.DIAGNOSTICS: Diagnostics,
@@ -142,6 +145,7 @@ class ParameterSchemaFactory:
         ParameterObjectType.ERROR_STANDARD_COUNTER: ErrorStandardCounterSchema,
         ParameterObjectType.COMPRESSIBILITY: CompressibilitySchema,
         ParameterObjectType.TIME_WINDOW: TimeWindowSchema,
+        ParameterObjectType.CORRECTION_COUNTER: CorrectionCounterSchema,
         ParameterObjectType.DOUBLE_COUNTER: DoubleCounterSchema,
         ParameterObjectType.DOUBLE_ERROR_COUNTER: DoubleErrorCounterSchema,
         ParameterObjectType.DIAGNOSTICS: DiagnosticsSchema,
-- 
2.43.0


From 126d7c68b8498c8e6921aa3d9b37384ba27d95dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 10/29] fix: DifferenceBaseCounter is a DifferenceCounter and
 can be decoded

---
 elgas/parameters/difference_counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/difference_counter.py b/elgas/parameters/difference_counter.py
index 3938125..df46928 100644
--- a/elgas/parameters/difference_counter.py
+++ b/elgas/parameters/difference_counter.py
@@ -83,7 +83,7 @@ class DifferenceCounter:
         )
 
 
-class DifferenceBaseCounter:
+class DifferenceBaseCounter(DifferenceCounter):
     object_type: ClassVar[
         ParameterObjectType
     ] = ParameterObjectType.DIFFERENCE_BASE_COUNTER
-- 
2.43.0


From 1b4c978ed1900eb8485fc1a7bb8269687c63093c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 11/29] fix: load exported error-standard-counters, modems and
 set points as objects

---
 elgas/parameters/error_standard_counter.py | 5 +++++
 elgas/parameters/modem.py                  | 5 +++++
 elgas/parameters/setpoint.py               | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/elgas/parameters/error_standard_counter.py b/elgas/parameters/error_standard_counter.py
index 3609bbb..72a1df4 100644
--- a/elgas/parameters/error_standard_counter.py
+++ b/elgas/parameters/error_standard_counter.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -98,3 +99,7 @@ class ErrorStandardCounterSchema(marshmallow.Schema):
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
     address_in_billing_archive_record = marshmallow.fields.Integer(required=True)
     decimals = marshmallow.fields.Integer(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return ErrorStandardCounter(**data)
diff --git a/elgas/parameters/modem.py b/elgas/parameters/modem.py
index ad12bb3..aa3041e 100644
--- a/elgas/parameters/modem.py
+++ b/elgas/parameters/modem.py
@@ -2,6 +2,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import parse_ip_address, pop_many, pretty_text
@@ -116,3 +117,7 @@ class ModemSchema(marshmallow.Schema):
     transition_into_command_mode = marshmallow.fields.String(required=True)
     pin = marshmallow.fields.String(required=True)
     owner_sim_number = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return Modem(**data)
diff --git a/elgas/parameters/setpoint.py b/elgas/parameters/setpoint.py
index 3bf8454..cce3f0a 100644
--- a/elgas/parameters/setpoint.py
+++ b/elgas/parameters/setpoint.py
@@ -3,6 +3,7 @@ from typing import ClassVar, Optional
 
 import attr
 import marshmallow
+from marshmallow import post_load
 
 from elgas.parameters.enumerations import ParameterObjectType
 from elgas.utils import pop_many, pretty_text
@@ -97,3 +98,7 @@ class SetPointSchema(marshmallow.Schema):
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
     text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
     text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
+
+    @post_load
+    def make_object(self, data, **kwargs):
+        return SetPoint(**data)
-- 
2.43.0


From bf4006238f8024f4955ea16c8204cc7f3ca250cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 12/29] fix: allow exported flow rates without decimals to be
 loaded

---
 elgas/parameters/flow_rate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/elgas/parameters/flow_rate.py b/elgas/parameters/flow_rate.py
index c227a4a..503e19f 100644
--- a/elgas/parameters/flow_rate.py
+++ b/elgas/parameters/flow_rate.py
@@ -98,7 +98,7 @@ class FlowRateSchema(marshmallow.Schema):
     error_bit_order_in_data_archive = marshmallow.fields.Integer(required=True)
     address_in_daily_archive_record = marshmallow.fields.Integer(required=True)
     address_in_monthly_archive_record = marshmallow.fields.Integer(required=True)
-    decimals = marshmallow.fields.Integer(required=True)
+    decimals = marshmallow.fields.Integer(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 736008e54c3e0c234243b3ce46054fdfb1f0e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 13/29] fix: device error log texts are strings in the schema
 too

---
 elgas/parameters/device_error.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/elgas/parameters/device_error.py b/elgas/parameters/device_error.py
index 19343ff..aabd5ee 100644
--- a/elgas/parameters/device_error.py
+++ b/elgas/parameters/device_error.py
@@ -85,8 +85,8 @@ class DeviceErrorSchema(marshmallow.Schema):
     error_bit_order_in_binary_archive_record = marshmallow.fields.Integer(required=True)
     error_bit_order_in_data_archive_record = marshmallow.fields.Integer(required=True)
     action_during_change = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_0 = marshmallow.fields.Integer(required=True, allow_none=True)
-    text_log_1 = marshmallow.fields.Integer(required=True, allow_none=True)
+    text_log_0 = marshmallow.fields.String(required=True, allow_none=True)
+    text_log_1 = marshmallow.fields.String(required=True, allow_none=True)
 
     @post_load
     def make_object(self, data, **kwargs):
-- 
2.43.0


From 3ef1cdf8141fcf1f2652371b6706d29bd36f718d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 14/29] fix: close the TCP socket even when shutting it down
 fails

---
 elgas/transport.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index 3c76404..cea719e 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -110,8 +110,10 @@ class BlockingTcpTransport:
         if self.tcp_socket:
             # only disconnect if there is a socket.
             try:
-                self.tcp_socket.shutdown(socket.SHUT_RDWR)
-                self.tcp_socket.close()
+                try:
+                    self.tcp_socket.shutdown(socket.SHUT_RDWR)
+                finally:
+                    self.tcp_socket.close()
             except (OSError, IOError, socket.timeout, socket.error) as e:
                 self.tcp_socket = None
                 raise exceptions.CommunicationError from e
-- 
2.43.0


From 398aa07cd0c4ed8538777f50f1a67092e49ca342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:17 +0000
Subject: [PATCH 15/29] fix: end receiving with a communication error when no
 more data comes

---
 elgas/transport.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/elgas/transport.py b/elgas/transport.py
index cea719e..ca090f0 100644
--- a/elgas/transport.py
+++ b/elgas/transport.py
@@ -149,7 +149,10 @@ class BlockingTcpTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.tcp_socket.recv(amount - len(data))
+            received = self.tcp_socket.recv(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Connection closed by peer")
+            data += received
 
         return data
 
@@ -252,7 +255,10 @@ class SerialTransport:
 
         data = b""
         while len(data) < amount:
-            data += self.serial_port.read(amount - len(data))
+            received = self.serial_port.read(amount - len(data))
+            if not received:
+                raise exceptions.CommunicationError("Timeout while receiving data")
+            data += received
 
         return data
 
-- 
2.43.0


From 8221297739ffe588720036c4d53183cdc7c70569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:30 +0000
Subject: [PATCH 16/29] fix: report device errors when several error bits are
 set

---
 elgas/connection.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 3dffd59..d8aafca 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -47,21 +47,21 @@ def create_cipher_context(
 
 def raise_error(data: bytes):
     error = data[0]
-    if error == 0b00000001:
+    if error & 0b00000001:
         raise exceptions.WrongPasswordError()
-    elif error == 0b00000010:
+    elif error & 0b00000010:
         raise exceptions.SettingArchiveFull()
-    elif error == 0b00000100:
+    elif error & 0b00000100:
         raise exceptions.SwitchOff()
-    elif error == 0b00001000:
+    elif error & 0b00001000:
         raise exceptions.BlockedBuffer()
-    elif error == 0b00010000:
+    elif error & 0b00010000:
         raise exceptions.DataError()
-    elif error == 0b00100000:
+    elif error & 0b00100000:
         raise exceptions.CipherKeyError()
-    elif error == 0b01000000:
+    elif error & 0b01000000:
         raise exceptions.WrongEncryptionKeysError()
-    elif error == 0b10000000:
+    elif error & 0b10000000:
         raise exceptions.WriteError()
 
 
-- 
2.43.0


From 6f52d10ddaabd7efd11a26dd3c163286873b2ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 17/29] fix: skip unusable frames instead of getting stuck on
 them

---
 elgas/connection.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index d8aafca..e5c397f 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -158,7 +158,15 @@ class ElgasConnection:
             )
 
     def next_event(self) -> bytes:
+        while True:
+            event = self._handle_frame()
+            if event is not None:
+                return event
 
+    def _handle_frame(self):
+        """
+        Handles the first frame in the buffer. Gives None if it was unusable.
+        """
         if not self.buffer:
             LOG.debug("Buffer empty. Need more data")
             return state.NEED_DATA
@@ -172,6 +180,8 @@ class ElgasConnection:
             return state.NEED_DATA
 
         data = self.buffer[:end_char_index]
+        # Whatever becomes of this frame, it should never be looked at again.
+        del self.buffer[:end_char_index]
         try:
             response = frames.ResponseFactory.from_bytes(utils.return_characters(data))
 
@@ -185,8 +195,8 @@ class ElgasConnection:
                 raise_error(response.data)
 
         except ValueError:
-            LOG.debug("Cannot interpret data as frame. Need more data")
-            return state.NEED_DATA
+            LOG.debug("Cannot interpret data as frame. Skipping it")
+            return None
 
         pdu = ResponsePduFactory.from_response(response)
         LOG.info("Received PDU", pdu=pdu)
-- 
2.43.0


From b2ce0843822690b26a8bfd31fb6de3de733c8218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 18/29] fix: a device error ends the outstanding request

---
 elgas/connection.py | 10 +++++++++-
 elgas/state.py      | 12 ++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index e5c397f..5731a9a 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -192,7 +192,15 @@ class ElgasConnection:
                 LOG.debug("Decrypted ELGAS response", decrypted=response)
 
             if len(response.data) == 1:
-                raise_error(response.data)
+                try:
+                    raise_error(response.data)
+                except exceptions.ElgasError:
+                    # The request was refused so there will be no other response.
+                    self.elgas_state.process_error(
+                        ResponsePduFactory.service_map[response.service]
+                    )
+                    self.buffer = bytearray()  # clear buffer
+                    raise
 
         except ValueError:
             LOG.debug("Cannot interpret data as frame. Skipping it")
diff --git a/elgas/state.py b/elgas/state.py
index 483e7fd..fd0d986 100644
--- a/elgas/state.py
+++ b/elgas/state.py
@@ -92,3 +92,15 @@ class ElgasState:
         old_state = self.current_state
         self.current_state = new_state
         LOG.debug(f"Elgas state transitioned from {old_state} to {new_state}")
+
+    def process_error(self, response_type):
+        """
+        The device answered with an error instead of with a response_type
+        """
+        if response_type not in ELGAS_STATE_TRANSITIONS[self.current_state]:
+            raise exceptions.LocalElgasProtocolError(
+                f"Can't handle error for {response_type} when state={self.current_state}"
+            )
+        old_state = self.current_state
+        self.current_state = ELGAS_STATE_TRANSITIONS[old_state][response_type]
+        LOG.debug(f"Elgas state transitioned from {old_state} to {self.current_state}")
-- 
2.43.0


From e3437b8061790aaca194fc5be55208da306c6694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 19/29] fix: skip encrypted frames without key and frames of
 unhandled services

---
 elgas/connection.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 5731a9a..8625158 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -187,7 +187,12 @@ class ElgasConnection:
 
             LOG.debug("Received ELGAS response", response=response)
 
+            if response.service not in ResponsePduFactory.service_map:
+                raise ValueError(f"No response is known for {response.service!r}")
+
             if isinstance(response, frames.EncryptedResponse):
+                if self.cipher_context is None:
+                    raise ValueError("Cannot decrypt a response without a key")
                 response.data = self.cipher_context.decrypt(response.data)
                 LOG.debug("Decrypted ELGAS response", decrypted=response)
 
-- 
2.43.0


From 6c03183b67b7c070f6eff41b1bd7caf8e8963221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 20/29] fix: report undecodable responses as protocol errors

---
 elgas/connection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 8625158..37abc92 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -211,7 +211,12 @@ class ElgasConnection:
             LOG.debug("Cannot interpret data as frame. Skipping it")
             return None
 
-        pdu = ResponsePduFactory.from_response(response)
+        try:
+            pdu = ResponsePduFactory.from_response(response)
+        except (ValueError, IndexError) as e:
+            raise exceptions.LocalElgasProtocolError(
+                f"Can't decode response for {response.service!r}"
+            ) from e
         LOG.info("Received PDU", pdu=pdu)
         self.elgas_state.process_event(pdu)
 
-- 
2.43.0


From 7f8ead2af550246607177ca26bef0580b0af8d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 21/29] fix: a request that cannot be encoded is not
 outstanding

---
 elgas/connection.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/elgas/connection.py b/elgas/connection.py
index 37abc92..a85dcea 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -108,7 +108,16 @@ class ElgasConnection:
     def send(self, event) -> bytes:
 
         LOG.debug("Sending request PDU", pdu=event)
+        previous_state = self.elgas_state.current_state
         self.elgas_state.process_event(event)
+        try:
+            return self._to_wire(event)
+        except Exception:
+            # Nothing will be sent, so there will not be any response to wait for.
+            self.elgas_state.current_state = previous_state
+            raise
+
+    def _to_wire(self, event) -> bytes:
         application_data = event.to_bytes()
 
         if self.cipher_context:
-- 
2.43.0


From 243d50d8a2593174a2d9659cd3eb80bffd4c083b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 22/29] fix: start a fresh session when connecting a client

---
 elgas/client.py     | 1 +
 elgas/connection.py | 8 ++++++++
 2 files changed, 9 insertions(+)

diff --git a/elgas/client.py b/elgas/client.py
index 5db6480..de5d896 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -39,6 +39,7 @@ class ElgasClient:
 
     def connect(self):
         self.transport.connect()
+        self.elgas_connection.reset()
 
     def disconnect(self):
         self.transport.disconnect()
diff --git a/elgas/connection.py b/elgas/connection.py
index a85dcea..4175060 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -147,6 +147,14 @@ class ElgasConnection:
         escaped_data = utils.escape_characters(frame_data)
         return escaped_data
 
+    def reset(self):
+        """
+        Forget everything about earlier exchanges. To be used when the link to the
+        device is a new one.
+        """
+        self.buffer = bytearray()
+        self.elgas_state.current_state = state.IDLE
+
     def receive_data(self, data: bytes):
         """
         Add data into the receive buffer. Also deescape the data so correct data is in
-- 
2.43.0


From b955a1c28a8b5c8dd369a05433df0cf870ef56ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:30 +0000
Subject: [PATCH 23/29] fix: a parameter download without objects gives an
 empty list

---
 elgas/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/client.py b/elgas/client.py
index de5d896..c758693 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -104,6 +104,8 @@ class ElgasClient:
                 LOG.info("More parameters available", next_object_count=object_count)
 
         LOG.debug("Received total parameters data", data=total_parameter_data)
+        if not total_parameter_data:
+            return []
         parsed = parser.ScadaParameterParser().parse(total_parameter_data)
         return parsed
 
-- 
2.43.0


From 98f2052cf0981f005020d4591a45b081517967d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:32 +0000
Subject: [PATCH 24/29] fix: refuse passwords that do not fill the password
 field

---
 elgas/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/elgas/utils.py b/elgas/utils.py
index e3689b1..295658a 100644
--- a/elgas/utils.py
+++ b/elgas/utils.py
@@ -173,6 +173,8 @@ def pad_password(password: str):
     Passwords are 6 characters long. But are sent as 10 characters where the last
     4 characters are insignificant.
     """
+    if len(password) != 6:
+        raise ValueError("Passwords are 6 characters long")
     possible_chars = "abcdefghijklmnopqrstuvxyzABCDEFGHIJKLMNOPQRSTUVXYZ0123456789"
     two_random = random.choices(possible_chars, k=2)
     # return password + "".join(four_random)
-- 
2.43.0


From 845d57d44e2eef376c9737d545bcb5543169ef82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:29 +0000
Subject: [PATCH 25/29] fix: refuse archive responses too short to hold the
 record id

---
 elgas/application.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/application.py b/elgas/application.py
index 57c993c..5497c79 100644
--- a/elgas/application.py
+++ b/elgas/application.py
@@ -252,6 +252,8 @@ class ReadArchiveByTimeResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Data is too short to hold the oldest record id")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
@@ -295,6 +297,8 @@ class ReadArchiveResponse:
 
     @classmethod
     def from_bytes(cls, in_bytes: bytes):
+        if len(in_bytes) < 5:
+            raise ValueError("Data is too short to hold the oldest record id")
         archive = constants.Archive(in_bytes[0])
         oldest_record_id = int.from_bytes(in_bytes[1:5], "little")
         data = in_bytes[5:]
-- 
2.43.0


From 6dbd3564e12f60a1a4a5ddf05b74223f92454811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:21 +0000
Subject: [PATCH 26/29] fix: keep the receive buffer out of representations

---
 elgas/connection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 4175060..5dfd1e8 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -99,7 +99,8 @@ class ElgasConnection:
     encryption_key_id: Optional[security.EncryptionKeyId] = attr.ib(default=None)
     # TODO: Validate that there is an encryption key id if there is an encryption key.
 
-    buffer: bytearray = attr.ib(init=False, factory=bytearray)
+    # An echoed request contains the password.
+    buffer: bytearray = attr.ib(init=False, factory=bytearray, repr=False)
     elgas_state: state.ElgasState = attr.ib(factory=state.ElgasState)
     cipher_context: Optional[security.CipherContext] = attr.ib(
         default=attr.Factory(lambda self: create_cipher_context(self), takes_self=True)
-- 
2.43.0


From aac7345d01a6b0900456bac88c9dd75c912cc450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 27/29] fix: report undecodable device parameters as a protocol
 error

---
 elgas/client.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/elgas/client.py b/elgas/client.py
index c758693..ebc9d31 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -4,7 +4,16 @@ from typing import *
 import attr
 import structlog
 
-from elgas import application, connection, constants, parser, state, transport, utils
+from elgas import (
+    application,
+    connection,
+    constants,
+    exceptions,
+    parser,
+    state,
+    transport,
+    utils,
+)
 
 LOG = structlog.get_logger("client")
 
@@ -106,7 +115,12 @@ class ElgasClient:
         LOG.debug("Received total parameters data", data=total_parameter_data)
         if not total_parameter_data:
             return []
-        parsed = parser.ScadaParameterParser().parse(total_parameter_data)
+        try:
+            parsed = parser.ScadaParameterParser().parse(total_parameter_data)
+        except Exception as e:
+            raise exceptions.LocalElgasProtocolError(
+                "Can't decode the device parameters"
+            ) from e
         return parsed
 
     def read_archive(
-- 
2.43.0


From cdf6324983198a37a31ce441a66c54f1215d0521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 28/29] fix: refuse a parameter page that leads beyond the last
 index

---
 elgas/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/elgas/client.py b/elgas/client.py
index ebc9d31..0e4e814 100644
--- a/elgas/client.py
+++ b/elgas/client.py
@@ -110,6 +110,10 @@ class ElgasClient:
             should_stop = response.is_end
             object_count += response.object_amount
             if not should_stop:
+                if object_count > 0xFFFF:
+                    raise exceptions.LocalElgasProtocolError(
+                        f"Can't request parameters from index {object_count}"
+                    )
                 LOG.info("More parameters available", next_object_count=object_count)
 
         LOG.debug("Received total parameters data", data=total_parameter_data)
-- 
2.43.0


From ada7ce871042281f6acd748982271b1faa76f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:45 +0000
Subject: [PATCH 29/29] fix: refuse an encryption key without its key id

---
 elgas/connection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/elgas/connection.py b/elgas/connection.py
index 5dfd1e8..e326f9a 100644
--- a/elgas/connection.py
+++ b/elgas/connection.py
@@ -37,8 +37,11 @@ def create_cipher_context(
     """
     If both encryption key and encryption key id is set then return a cipher context
     """
-    if connection.encryption_key is None or connection.encryption_key_id is None:
+    if connection.encryption_key is None:
         return None
+    elif connection.encryption_key_id is None:
+        # Going on would send everything unencrypted.
+        raise ValueError("The encryption key is set but its encryption key id is not")
     else:
         return security.CipherContext(
             connection.encryption_key_id, connection.encryption_key
-- 
2.43.0

