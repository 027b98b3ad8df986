From 69456640c60df5f0525e11e994b1ba9a89737a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 001/100] fix: encode and decode floats as IEEE-754, including
 subnormals

The hand-written exponent conversion moved the smallest normal numbers to the
next binade, misread subnormal numbers by many orders of magnitude and turned
values that are too large into unrelated finite numbers.
---
 zigpy/types/basic.py | 53 +++++++-------------------------------------
 1 file changed, 8 insertions(+), 45 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index c08cab8..1e03862 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -639,6 +639,7 @@ class BaseFloat(float):
     _exponent_bits = None
     _fraction_bits = None
     _size = None
+    _format = None
 
     def __init_subclass__(cls, exponent_bits, fraction_bits):
         size_bits = 1 + exponent_bits + fraction_bits
@@ -647,60 +648,22 @@ class BaseFloat(float):
         cls._exponent_bits = exponent_bits
         cls._fraction_bits = fraction_bits
         cls._size = size_bits // 8
-
-    @staticmethod
-    def _convert_format(*, src: BaseFloat, dst: BaseFloat, n: int) -> int:
-        """Converts an integer representing a float from one format into another. Note:
-
-        1. Format is assumed to be little endian: 0b[sign bit] [exponent] [fraction]
-        2. Truncates/extends the exponent, preserving the special cases of all 1's
-        and all 0's.
-        3. Truncates/extends the fractional bits from the right, allowing lossless
-        conversion to a "bigger" representation.
-        """
-
-        src_sign = n >> (src._exponent_bits + src._fraction_bits)
-        src_frac = n & ((1 << src._fraction_bits) - 1)
-        src_biased_exp = (n >> src._fraction_bits) & ((1 << src._exponent_bits) - 1)
-        src_exp = src_biased_exp - 2 ** (src._exponent_bits - 1)
-
-        if src_biased_exp == (1 << src._exponent_bits) - 1:
-            dst_biased_exp = 2**dst._exponent_bits - 1
-        elif src_biased_exp == 0:
-            dst_biased_exp = 0
-        else:
-            dst_min_exp = 2 - 2 ** (dst._exponent_bits - 1)  # Can't be all zeroes
-            dst_max_exp = 2 ** (dst._exponent_bits - 1) - 2  # Can't be all ones
-            dst_exp = min(max(dst_min_exp, src_exp), dst_max_exp)
-            dst_biased_exp = dst_exp + 2 ** (dst._exponent_bits - 1)
-
-        # We add/remove LSBs
-        if src._fraction_bits > dst._fraction_bits:
-            dst_frac = src_frac >> (src._fraction_bits - dst._fraction_bits)
-        else:
-            dst_frac = src_frac << (dst._fraction_bits - src._fraction_bits)
-
-        return (
-            src_sign << (dst._exponent_bits + dst._fraction_bits)
-            | dst_biased_exp << (dst._fraction_bits)
-            | dst_frac
-        )
+        cls._format = {2: "<e", 4: "<f", 8: "<d"}[cls._size]
 
     def serialize(self) -> bytes:
-        return self._convert_format(
-            src=Double, dst=self, n=int.from_bytes(struct.pack("<d", self), "little")
-        ).to_bytes(self._size, "little")
+        try:
+            return struct.pack(self._format, self)
+        except OverflowError as e:
+            raise ValueError(f"{self!r} is too large for {type(self)}") from e
 
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[BaseFloat, bytes]:
         if len(data) < cls._size:
             raise ValueError(f"Data is too short to contain {cls._size} bytes")
 
-        double_bytes = cls._convert_format(
-            src=cls, dst=Double, n=int.from_bytes(data[: cls._size], "little")
-        ).to_bytes(Double._size, "little")
+        (value,) = struct.unpack(cls._format, data[: cls._size])
 
-        return cls(struct.unpack("<d", double_bytes)[0]), data[cls._size :]
+        return cls(value), data[cls._size :]
 
 
 class Half(BaseFloat, exponent_bits=5, fraction_bits=10):
-- 
2.43.0


From 2f68c9c5098f8a7bd031cfc4f1acacd04eddc119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:25 +0000
Subject: [PATCH 002/100] fix: correct the invalid values of the uint64 and
 enum16 ZCL data types

---
 zigpy/zcl/foundation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 9591f2d..3e6f20d 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -406,7 +406,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.uint64_t,
         DataClass.Analog,
         "Unsigned 64-bit integer",
-        t.uint64_t(0xFFFFFFFFFFFFFF),
+        t.uint64_t(0xFFFFFFFFFFFFFFFF),
     )
     int8 = (
         DataTypeId.int8,
@@ -476,7 +476,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.enum16,
         DataClass.Discrete,
         "16-bit enumeration",
-        t.enum16(0xFF),
+        t.enum16(0xFFFF),
     )
     semi = (
         DataTypeId.semi,
-- 
2.43.0


From ed88a8d41da718d634276782d6b9ab43f6efa422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 003/100] fix: prefix character strings with their length in
 bytes, not characters

A string with non-ASCII characters was sent with a too small length, so the
receiver cut it off and misread whatever followed.
---
 zigpy/types/basic.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 1e03862..935e3d1 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -903,15 +903,17 @@ class CharacterString(str):
         return instance
 
     def serialize(self) -> bytes:
-        if len(self) >= pow(256, self._prefix_length) - 1:
+        encoded = self.encode("utf8")
+
+        if len(encoded) >= pow(256, self._prefix_length) - 1:
             raise ValueError("String is too long")
 
         if self.invalid:
             return self._invalid_length.to_bytes(self._prefix_length, "little")
 
-        return len(self).to_bytes(
-            self._prefix_length, "little", signed=False
-        ) + self.encode("utf8")
+        return (
+            len(encoded).to_bytes(self._prefix_length, "little", signed=False) + encoded
+        )
 
     @classmethod
     def deserialize(cls: type[T], data: bytes) -> tuple[T, bytes]:
-- 
2.43.0


From 49c0828bc2c70bc46f61c6831d16b0b377674868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 004/100] fix: use 0xFFFF, not 0x00FF, as the invalid length of
 long character strings

---
 zigpy/types/basic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index 935e3d1..fd3f34d 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -940,6 +940,7 @@ class CharacterString(str):
 
 class LongCharacterString(CharacterString):
     _prefix_length = 2
+    _invalid_length = (1 << (8 * _prefix_length)) - 1
 
 
 def LimitedCharString(max_len):  # noqa: N802
-- 
2.43.0


From 14e27899decd43ad20035518a4451894c48d1b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 005/100] fix: keep the invalid marker of a character string
 when it is converted

Lists convert every item when they are serialized, which turned an invalid
string into an empty one.
---
 zigpy/types/basic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/types/basic.py b/zigpy/types/basic.py
index fd3f34d..66cee47 100644
--- a/zigpy/types/basic.py
+++ b/zigpy/types/basic.py
@@ -897,7 +897,7 @@ class CharacterString(str):
 
     def __new__(cls, value: str = "", *, invalid: bool = False) -> Self:
         instance = super().__new__(cls, value)
-        instance.invalid = invalid
+        instance.invalid = invalid or getattr(value, "invalid", False)
         instance.raw = value
 
         return instance
-- 
2.43.0


From 7e60561ce2ffd47f94877879385b5f7c1b7957e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:28 +0000
Subject: [PATCH 006/100] fix: correct the invalid value of the int64 ZCL data
 type

---
 zigpy/zcl/foundation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 3e6f20d..8128917 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -462,7 +462,7 @@ class DataType(DataTypeInfo, enum.Enum):
         t.int64s,
         DataClass.Analog,
         "Signed 64-bit integer",
-        t.int64s(-0x80000000000000),
+        t.int64s(-0x8000000000000000),
     )
     enum8 = (
         DataTypeId.enum8,
-- 
2.43.0


From 713ff987d9fa3afe82d8a98447200451fd6dd1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 007/100] fix: make inequality of integer-backed structs the
 opposite of equality

---
 zigpy/types/struct.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index 36c4fe6..1d07281 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -346,6 +346,12 @@ class Struct:
 
         return self.as_dict() == other.as_dict()
 
+    def __ne__(self, other: object) -> bool:
+        # Integer-backed structs would otherwise inherit `int.__ne__`
+        result = self.__eq__(other)
+
+        return result if result is NotImplemented else not result
+
     def __int__(self) -> int:
         if self._int_type is None:
             return NotImplemented
-- 
2.43.0


From 39dc4eb432b7931095a82f1a25603dc6a483c3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:15 +0000
Subject: [PATCH 008/100] fix: do not modify shared or frozen frame controls of
 ZCL headers

---
 zigpy/zcl/foundation.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 8128917..2bd36be 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -1041,9 +1041,6 @@ class ZCLHeader(t.Struct):
         if manufacturer is cls.NO_MANUFACTURER_ID:
             manufacturer = None
 
-        if frame_control is not None and manufacturer is not None:
-            frame_control.is_manufacturer_specific = True
-
         return super().__new__(cls, frame_control, manufacturer, tsn, command_id)
 
     @property
@@ -1062,7 +1059,14 @@ class ZCLHeader(t.Struct):
         super().__setattr__(name, value)
 
         if name == "manufacturer" and self.frame_control is not None:
-            self.frame_control.is_manufacturer_specific = value is not None
+            is_specific = value is not None
+
+            # The frame control may be frozen or shared with another header
+            if self.frame_control.is_manufacturer_specific != is_specific:
+                self.frame_control = FrameControl(self.frame_control)
+
+            if not self.frame_control._frozen:
+                self.frame_control.is_manufacturer_specific = is_specific
 
     @classmethod
     def general(
-- 
2.43.0


From 6d568cfd5a539ec90bb855c502b5a4f0c91adde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:57 +0000
Subject: [PATCH 009/100] fix: allow copying and printing reporting
 configurations without all fields

---
 zigpy/zcl/foundation.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/zigpy/zcl/foundation.py b/zigpy/zcl/foundation.py
index 2bd36be..a896eae 100644
--- a/zigpy/zcl/foundation.py
+++ b/zigpy/zcl/foundation.py
@@ -753,17 +753,20 @@ class AttributeReportingStatus(t.enum8):
 
 
 class AttributeReportingConfig:
+    direction: ReportingDirection
+    attrid: t.uint16_t
+    timeout: int
+    datatype: DataTypeId
+    min_interval: int
+    max_interval: int
+
+    # Only analog types have a reportable change
+    reportable_change: int | None = None
+
     def __init__(self, other: AttributeReportingConfig | None = None) -> None:
         if isinstance(other, self.__class__):
-            self.direction: ReportingDirection = other.direction
-            self.attrid: t.uint16_t = other.attrid
-            if self.direction == ReportingDirection.ReceiveReports:
-                self.timeout: int = other.timeout
-                return
-            self.datatype: DataTypeId = other.datatype
-            self.min_interval: int = other.min_interval
-            self.max_interval: int = other.max_interval
-            self.reportable_change: int = other.reportable_change
+            # Which fields exist depends on the direction, data type, and status
+            vars(self).update(vars(other))
 
     def serialize(self, *, _only_dir_and_attrid: bool = False) -> bytes:
         r = ReportingDirection(self.direction).serialize()
@@ -832,7 +835,8 @@ class AttributeReportingConfig:
         r += f", attrid=0x{self.attrid:04X}"
 
         if self.direction == ReportingDirection.ReceiveReports:
-            r += f", timeout={self.timeout}"
+            if hasattr(self, "timeout"):
+                r += f", timeout={self.timeout}"
         elif hasattr(self, "datatype"):
             r += f", datatype={self.datatype}"
             r += f", min_interval={self.min_interval}"
-- 
2.43.0


From 93e29b690f3f7a6256d11048008d22f8d09d6f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:17 +0000
Subject: [PATCH 010/100] fix: clear the strobe bit of IAS warnings when strobe
 is turned off

---
 zigpy/zcl/clusters/security.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/clusters/security.py b/zigpy/zcl/clusters/security.py
index 0ed393a..ed7a09d 100644
--- a/zigpy/zcl/clusters/security.py
+++ b/zigpy/zcl/clusters/security.py
@@ -441,7 +441,7 @@ class WarningType(_SquawkOrWarningCommand):
 
     @strobe.setter
     def strobe(self, strobe: Strobe) -> None:
-        self.value = (self.value & 0xF7) | (
+        self.value = (self.value & 0xFB) | (
             (strobe & 0x01) << 2  # type:ignore[operator]
         )
 
-- 
2.43.0


From e85d5e669a57be707a7060c7ebc5f8f544b31bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:26 +0000
Subject: [PATCH 011/100] fix: keep attribute values of unexpected types
 instead of raising

---
 zigpy/zcl/__init__.py | 50 ++++++++++++++++++++++---------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 338394f..74c195b 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -461,6 +461,28 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             args,
         )
 
+    def _normalize_attribute(self, attrid: int, value: Any) -> Any:
+        """Convert a received value to the type of the attribute, if possible."""
+        if attrid not in self.attributes:
+            return value
+
+        attr_type = self.attributes[attrid].type
+
+        try:
+            # `bytes(n)` would create `n` null bytes
+            if issubclass(attr_type, bytes) and isinstance(value, int):
+                raise TypeError(f"{value!r} is not a byte string")
+
+            return attr_type(value)
+        except Exception:  # noqa: BLE001
+            self.debug(
+                "Couldn't normalize %a attribute with %s value",
+                attrid,
+                value,
+                exc_info=True,
+            )
+            return value
+
     def handle_cluster_general_request(
         self,
         hdr: foundation.ZCLHeader,
@@ -480,18 +502,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             self.debug("Attribute report received: %s", ", ".join(values))
 
             for attr in args.attribute_reports:
-                try:
-                    value = self.attributes[attr.attrid].type(attr.value.value)
-                except KeyError:
-                    value = attr.value.value
-                except ValueError:
-                    self.debug(
-                        "Couldn't normalize %a attribute with %s value",
-                        attr.attrid,
-                        attr.value.value,
-                        exc_info=True,
-                    )
-                    value = attr.value.value
+                value = self._normalize_attribute(attr.attrid, attr.value.value)
                 self._update_attribute(attr.attrid, value)
 
             if not hdr.frame_control.disable_default_response:
@@ -581,18 +592,9 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             for record in result[0]:
                 orig_attribute = orig_attributes[record.attrid]
                 if record.status == foundation.Status.SUCCESS:
-                    try:
-                        value = self.attributes[record.attrid].type(record.value.value)
-                    except KeyError:
-                        value = record.value.value
-                    except ValueError:
-                        value = record.value.value
-                        self.debug(
-                            "Couldn't normalize %a attribute with %s value",
-                            record.attrid,
-                            value,
-                            exc_info=True,
-                        )
+                    value = self._normalize_attribute(
+                        record.attrid, record.value.value
+                    )
                     self._update_attribute(record.attrid, value)
                     success[orig_attribute] = value
                     self.remove_unsupported_attribute(record.attrid)
-- 
2.43.0


From d3cc1bd4034c42b679d7c9bda9287ee420447236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 012/100] fix: declare ZDO user descriptors as lists of 16
 bytes

---
 zigpy/zdo/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 3b38e6b..52ad17f 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -559,7 +559,7 @@ CLUSTERS = {
     ZDOCmd.Device_annce: (NWK, IEEE, ("Capability", t.uint8_t)),
     ZDOCmd.User_Desc_set: (
         NWKI,
-        ("UserDescriptor", t.FixedList[16, t.uint8_t]),
+        ("UserDescriptor", t.FixedList[t.uint8_t, 16]),
     ),  # Really a string
     ZDOCmd.System_Server_Discovery_req: (("ServerMask", t.uint16_t),),
     ZDOCmd.Discovery_store_req: (
@@ -665,7 +665,7 @@ CLUSTERS = {
         STATUS,
         NWKI,
         ("Length", t.uint8_t),
-        ("UserDescriptor", t.Optional(t.FixedList[16, t.uint8_t])),
+        ("UserDescriptor", t.Optional(t.FixedList[t.uint8_t, 16])),
     ),
     ZDOCmd.Discovery_Cache_rsp: (STATUS,),
     ZDOCmd.User_Desc_conf: (STATUS, NWKI),
-- 
2.43.0


From 512a0db60e79d0e63b39256ea073f8d7f598d46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 013/100] fix: use 16-bit identifiers in End_Device_Bind_req
 and Find_node_cache_rsp

---
 zigpy/zdo/types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/zigpy/zdo/types.py b/zigpy/zdo/types.py
index 52ad17f..bf817e9 100644
--- a/zigpy/zdo/types.py
+++ b/zigpy/zdo/types.py
@@ -591,9 +591,9 @@ CLUSTERS = {
         ("BindingTarget", t.uint16_t),
         ("SrcAddress", t.EUI64),
         ("SrcEndpoint", t.uint8_t),
-        ("ProfileID", t.uint8_t),
-        ("InClusterList", t.LVList[t.uint8_t]),
-        ("OutClusterList", t.LVList[t.uint8_t]),
+        ("ProfileID", t.uint16_t),
+        ("InClusterList", t.LVList[t.uint16_t]),
+        ("OutClusterList", t.LVList[t.uint16_t]),
     ),
     ZDOCmd.Bind_req: (
         ("SrcAddress", t.EUI64),
@@ -676,7 +676,7 @@ CLUSTERS = {
     ZDOCmd.Active_EP_store_rsp: (STATUS,),
     ZDOCmd.Simple_Desc_store_rsp: (STATUS,),
     ZDOCmd.Remove_node_cache_rsp: (STATUS,),
-    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.EUI64), NWK, IEEE),
+    ZDOCmd.Find_node_cache_rsp: (("CacheNWKAddr", t.NWK), NWK, IEEE),
     ZDOCmd.Extended_Simple_Desc_rsp: (
         STATUS,
         NWK,
-- 
2.43.0


From 00384568ac58940e83f5a8db8b783572515d3762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:56 +0000
Subject: [PATCH 014/100] fix: serialize named arguments of ZDO broadcasts in
 schema order

---
 zigpy/zdo/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 0d43bb9..8f8ab3e 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -307,7 +307,9 @@ def broadcast(
     assert set(named_args.keys()) & set(params)
 
     sequence = app.get_sequence()
-    data = bytes([sequence]) + t.serialize(named_args.values(), param_types)
+    data = bytes([sequence]) + t.serialize(
+        [named_args[name] for name in params if name in named_args], param_types
+    )
 
     return zigpy.device.broadcast(
         app,
-- 
2.43.0


From 443f54910756f75def13796a00cb87104b92f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:28 +0000
Subject: [PATCH 015/100] fix: declare BACnet object identifiers as lists of 4
 bytes

---
 zigpy/zcl/clusters/protocol.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/zigpy/zcl/clusters/protocol.py b/zigpy/zcl/clusters/protocol.py
index 4a6841c..64f95ad 100644
--- a/zigpy/zcl/clusters/protocol.py
+++ b/zigpy/zcl/clusters/protocol.py
@@ -60,7 +60,7 @@ class AnalogInputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         update_interval: Final = ZCLAttributeDef(id=0x0076, type=t.uint8_t)
@@ -107,7 +107,7 @@ class AnalogOutputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         update_interval: Final = ZCLAttributeDef(id=0x0076, type=t.uint8_t)
@@ -139,7 +139,7 @@ class AnalogValueRegular(Cluster):
 
     class AttributeDefs(BaseAttributeDefs):
         cov_increment: Final = ZCLAttributeDef(id=0x0016, type=t.Single)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -171,7 +171,7 @@ class BinaryInputRegular(Cluster):
         change_of_state_time: Final = ZCLAttributeDef(id=0x0010, type=DateTime)
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -205,7 +205,7 @@ class BinaryOutputRegular(Cluster):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
         feed_back_value: Final = ZCLAttributeDef(id=0x0028, type=t.enum8)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -236,7 +236,7 @@ class BinaryValueRegular(Cluster):
         change_of_state_count: Final = ZCLAttributeDef(id=0x000F, type=t.uint32_t)
         change_of_state_time: Final = ZCLAttributeDef(id=0x0010, type=DateTime)
         elapsed_active_time: Final = ZCLAttributeDef(id=0x0021, type=t.uint32_t)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         time_of_at_reset: Final = ZCLAttributeDef(id=0x0072, type=DateTime)
@@ -266,7 +266,7 @@ class MultistateInputRegular(Cluster):
 
     class AttributeDefs(BaseAttributeDefs):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -296,7 +296,7 @@ class MultistateOutputRegular(Cluster):
     class AttributeDefs(BaseAttributeDefs):
         device_type: Final = ZCLAttributeDef(id=0x001F, type=t.CharacterString)
         feed_back_value: Final = ZCLAttributeDef(id=0x0028, type=t.enum8)
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
@@ -322,7 +322,7 @@ class MultistateValueRegular(Cluster):
     ep_attribute: Final = "bacnet_regular_multistate_value"
 
     class AttributeDefs(BaseAttributeDefs):
-        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[4, t.uint8_t])
+        object_id: Final = ZCLAttributeDef(id=0x004B, type=t.FixedList[t.uint8_t, 4])
         object_name: Final = ZCLAttributeDef(id=0x004D, type=t.CharacterString)
         object_type: Final = ZCLAttributeDef(id=0x004F, type=t.enum16)
         profile_name: Final = ZCLAttributeDef(id=0x00A8, type=t.CharacterString)
-- 
2.43.0


From c0d89d17c26cc5d144091f420d56562ee4b41280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 016/100] fix: ignore received packets without a complete
 header

---
 zigpy/device.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index f4d4503..01ce0e6 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -467,13 +467,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             )
             return
 
-        # Parse the ZCL/ZDO header first. This should never fail.
+        # Parse the ZCL/ZDO header first
         data = packet.data.serialize()
 
-        if packet.dst_ep == zdo.ZDO_ENDPOINT:
-            hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
-        else:
-            hdr, _ = foundation.ZCLHeader.deserialize(data)
+        try:
+            if packet.dst_ep == zdo.ZDO_ENDPOINT:
+                hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
+            else:
+                hdr, _ = foundation.ZCLHeader.deserialize(data)
+        except ValueError:
+            self.debug("Failed to parse header of packet %r", packet, exc_info=True)
+            return
 
         try:
             if (
-- 
2.43.0


From 23eec834c67ddef2b0f45002039412e9af5f2617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:40 +0000
Subject: [PATCH 017/100] fix: ignore non-ZDO messages sent from the ZDO
 endpoint

---
 zigpy/device.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/zigpy/device.py b/zigpy/device.py
index 01ce0e6..f583bc8 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -453,6 +453,10 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         endpoint = self.endpoints[packet.src_ep]
 
+        if packet.src_ep == zdo.ZDO_ENDPOINT and packet.dst_ep != zdo.ZDO_ENDPOINT:
+            self.debug("Ignoring non-ZDO message from the ZDO endpoint")
+            return
+
         # Ignore packets that do not match the endpoint's clusters.
         # TODO: this isn't actually necessary, we can parse most packets by cluster ID.
         if (
-- 
2.43.0


From 40b9da9f03e541982fbd1a484c838f762963d5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:02 +0000
Subject: [PATCH 018/100] fix: ignore received packets whose source is not a
 device address

---
 zigpy/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 04a0366..84f6875 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -1011,6 +1011,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
         try:
             device = self.get_device_with_address(packet.src)
+        except ValueError:
+            LOGGER.warning("Ignoring packet with invalid source %r", packet.src)
+            return None
         except KeyError:
             LOGGER.warning("Unknown device %r", packet.src)
 
-- 
2.43.0


From 9d2c3c61a6428798c24d11649f1bcd4220581eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:58 +0000
Subject: [PATCH 019/100] fix: wake up semaphore waiters when capacity is free,
 in order of priority

---
 zigpy/datastructures.py | 47 +++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 23 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index f7da1ee..979e879 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -41,7 +41,6 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         self._comparison_counter: int = 0
 
         self._waiters: list[tuple[int, int, asyncio.Future]] = []
-        self._wakeup_scheduled: bool = False
 
     @property
     @functools.cache
@@ -49,12 +48,13 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         return asyncio.get_running_loop()
 
     def _wake_up_next(self) -> None:
-        while self._waiters:
+        # The value is decremented on behalf of the waiter, so nobody can get ahead of it
+        while self._waiters and self._value > 0:
             _, _, waiter = heapq.heappop(self._waiters)
 
             if not waiter.done():
+                self._value -= 1
                 waiter.set_result(None)
-                self._wakeup_scheduled = True
                 return
 
     @property
@@ -96,28 +96,29 @@ class PriorityDynamicBoundedSemaphore(asyncio.Semaphore):
         True.
         """
 
-        # _wakeup_scheduled is set if *another* task is scheduled to wakeup
-        # but its acquire() is not resumed yet
-        while self._wakeup_scheduled or self._value <= 0:
-            # To ensure that our objects don't have to be themselves comparable, we
-            # maintain a global count and increment it on every insert. This way,
-            # the tuple `(-priority, count, item)` will never have to compare `item`.
-            self._comparison_counter += 1
-
-            fut = self._loop.create_future()
-            obj = (-priority, self._comparison_counter, fut)
-            heapq.heappush(self._waiters, obj)
-
-            try:
-                await fut
-                # reset _wakeup_scheduled *after* waiting for a future
-                self._wakeup_scheduled = False
-            except asyncio.CancelledError:
+        if self._value > 0:
+            self._value -= 1
+            return True
+
+        # To ensure that our objects don't have to be themselves comparable, we
+        # maintain a global count and increment it on every insert. This way,
+        # the tuple `(-priority, count, item)` will never have to compare `item`.
+        self._comparison_counter += 1
+
+        fut = self._loop.create_future()
+        obj = (-priority, self._comparison_counter, fut)
+        heapq.heappush(self._waiters, obj)
+
+        try:
+            await fut
+        except asyncio.CancelledError:
+            if not fut.cancelled():
+                # We were woken up but will not use the value: pass it on
+                self._value += 1
                 self._wake_up_next()
-                raise
 
-        assert self._value > 0
-        self._value -= 1
+            raise
+
         return True
 
     def release(self) -> None:
-- 
2.43.0


From 4c42270f20c6c5529170c741799f60b21536f431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:31 +0000
Subject: [PATCH 020/100] fix: expire debounced values in order of their own
 windows

---
 zigpy/datastructures.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/zigpy/datastructures.py b/zigpy/datastructures.py
index 979e879..d40f914 100644
--- a/zigpy/datastructures.py
+++ b/zigpy/datastructures.py
@@ -227,7 +227,6 @@ class Debouncer:
         self._times: dict[typing.Any, float] = {}
         self._queue: list[tuple[float, int, typing.Any]] = []
 
-        self._last_time: int = 0
         self._dedup_counter: int = 0
 
     @functools.cached_property
@@ -239,9 +238,9 @@ class Debouncer:
         if now is None:
             now = self._loop.time()
 
-        # We store the negative expiration time to ensure we can pop expiring objects
-        while self._queue and -self._queue[-1][0] < now:
-            _, _, obj = self._queue.pop()
+        # The soonest to expire is always first
+        while self._queue and self._queue[0][0] < now:
+            _, _, obj = heapq.heappop(self._queue)
             self._times.pop(obj)
 
     def is_filtered(self, obj: typing.Any, now: float | None = None) -> bool:
@@ -259,12 +258,8 @@ class Debouncer:
         """Check if an object should be filtered. If not, store it."""
         now = self._loop.time()
 
-        # For platforms with low-resolution clocks, we need to make sure that `obj` will
+        # Objects can expire at the same time, we need to make sure that `obj` will
         # never be compared by `heapq`!
-        if now > self._last_time:
-            self._last_time = now
-            self._dedup_counter = 0
-
         self._dedup_counter += 1
 
         # If the object is filtered, do nothing
@@ -273,7 +268,7 @@ class Debouncer:
 
         # Otherwise, queue it
         self._times[obj] = now + expire_in
-        heapq.heappush(self._queue, (-(now + expire_in), self._dedup_counter, obj))
+        heapq.heappush(self._queue, (now + expire_in, self._dedup_counter, obj))
 
         return False
 
-- 
2.43.0


From fa0711be11565b953b4a0b39e1933f5bfc634848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:58 +0000
Subject: [PATCH 021/100] fix: read the network manager of open coordinator
 backups in its byte order

---
 zigpy/backups.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index f7aef7d..7184dd4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -358,7 +358,7 @@ def _open_coordinator_backup_to_network_backup(obj: dict[str, Any]) -> NetworkBa
 
     if "nwk_manager" in network_meta:
         network_info.nwk_manager_id, _ = t.NWK.deserialize(
-            bytes.fromhex(network_meta["nwk_manager"])
+            bytes.fromhex(network_meta["nwk_manager"])[::-1]
         )
     else:
         network_info.nwk_manager_id = t.NWK(0x0000)
-- 
2.43.0


From e938eab4966c50fca1c0a45eaf8c70883f4a2c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:54 +0000
Subject: [PATCH 022/100] fix: keep backups independent of later changes of the
 network state

---
 zigpy/backups.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zigpy/backups.py b/zigpy/backups.py
index 7184dd4..ce470e4 100644
--- a/zigpy/backups.py
+++ b/zigpy/backups.py
@@ -134,9 +134,10 @@ class BackupManager(ListenableMixin):
 
     def from_network_state(self) -> NetworkBackup:
         """Create a backup object from the current network's state."""
+        # The state can be updated in place later, the backup cannot
         return NetworkBackup(
-            network_info=self.app.state.network_info,
-            node_info=self.app.state.node_info,
+            network_info=copy.deepcopy(self.app.state.network_info),
+            node_info=copy.deepcopy(self.app.state.node_info),
         )
 
     async def create_backup(self, *, load_devices: bool = False) -> NetworkBackup:
-- 
2.43.0


From 5e262cd1dfebc3a5b65eb3b36d77c204dafc6e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:04 +0000
Subject: [PATCH 023/100] fix: keep devices that join again while they are
 being removed

---
 zigpy/application.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 84f6875..5e3b931 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -72,6 +72,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         self._listeners = {}
         self._send_sequence = 0
         self._tasks: set[asyncio.Future[Any]] = set()
+        self._pending_removals: set[zigpy.device.Device] = set()
 
         self._watchdog_task: asyncio.Task | None = None
 
@@ -523,6 +524,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         rejoin: bool = False,
     ) -> None:
         """Send a remove request then pop the device."""
+        self._pending_removals.add(device)
+
         try:
             async with asyncio_timeout(
                 30
@@ -533,7 +536,10 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
-        self.devices.pop(device.ieee, None)
+        # The device may have joined again in the meantime
+        if device in self._pending_removals:
+            self._pending_removals.remove(device)
+            self.devices.pop(device.ieee, None)
 
     def deserialize(
         self,
@@ -578,6 +584,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         dev.update_last_seen()
 
         if new_join:
+            self._pending_removals.discard(dev)
             self.listener_event("device_joined", dev)
             dev.schedule_initialize()
         elif not dev.is_initialized:
-- 
2.43.0


From dcf3ab8ad452dc9c295d62cf3f161c7acfb4bfb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:24 +0000
Subject: [PATCH 024/100] fix: resolve reassigned network addresses to their
 current owner

---
 zigpy/application.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 5e3b931..6757e9c 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -1298,9 +1298,12 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         # TODO: Make this not terrible
         # Unlike its IEEE address, a device's NWK address can change at runtime so this
         # is not as simple as building a second mapping
-        for dev in self.devices.values():
-            if dev.nwk == nwk:
-                return dev
+        matches = [dev for dev in self.devices.values() if dev.nwk == nwk]
+
+        if matches:
+            # A NWK address can be assigned to another device after its previous owner
+            # was reset or moved, the device that was heard from last is the real owner
+            return max(matches, key=lambda dev: dev.last_seen or 0)
 
         raise KeyError(f"Device not found: nwk={nwk!r}, ieee={ieee!r}")
 
-- 
2.43.0


From e5586461b84ab5635b3cf864e08c32d4640d597d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:52 +0000
Subject: [PATCH 025/100] fix: forget removed devices that answer the leave
 request with garbage

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 6757e9c..8f02bfb 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -533,7 +533,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                 else 7
             ):
                 await device.zdo.leave(remove_children=remove_children, rejoin=rejoin)
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as ex:
+        except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as ex:
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
         # The device may have joined again in the meantime
-- 
2.43.0


From 40129d1d81accd6bbb75087031f3b55cefb8e438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:48 +0000
Subject: [PATCH 026/100] fix: retry reading node descriptors that are missing
 in a successful response

---
 zigpy/device.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/device.py b/zigpy/device.py
index f583bc8..386f136 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -227,6 +227,9 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
                 f"Requesting Node Descriptor failed: {status}"
             )
 
+        if node_desc is None:
+            raise zigpy.exceptions.InvalidResponse("Node Descriptor is missing")
+
         self.node_desc = node_desc
         self.info("Got Node Descriptor: %s", node_desc)
 
-- 
2.43.0


From 0a002aa4ebcaf1957dc8f008a4cc7fc676d2d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:05 +0000
Subject: [PATCH 027/100] fix: keep inactive endpoints inactive when the
 interview is repeated

---
 zigpy/endpoint.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b4ca4f2..b68e5de 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -58,7 +58,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
     async def initialize(self) -> None:
         self.info("Discovering endpoint information")
 
-        if self.profile_id is not None or self.status == Status.ENDPOINT_INACTIVE:
+        if self.status == Status.ENDPOINT_INACTIVE:
+            self.info("Endpoint is inactive")
+            return
+
+        if self.profile_id is not None:
             self.info("Endpoint descriptor already queried")
         else:
             status, _, sd = await self._device.zdo.Simple_Desc_req(
-- 
2.43.0


From 9720885ac0fa04189229ee149b330158e9f79ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:12 +0000
Subject: [PATCH 028/100] fix: treat devices as initialized only once their
 interview is complete

---
 zigpy/device.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 386f136..2f6ee41 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -85,6 +85,7 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         self.ota_in_progress: bool = False
         self._last_seen: datetime | None = None
         self._initialize_task: asyncio.Task | None = None
+        self._interview_incomplete: bool = False
         self._group_scan_task: asyncio.Task | None = None
         self._listeners = {}
         self._manufacturer: str | None = None
@@ -173,7 +174,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     @property
     def is_initialized(self) -> bool:
-        return self.node_desc is not None and self.all_endpoints_init
+        return (
+            self.node_desc is not None
+            and self.all_endpoints_init
+            and not self._interview_incomplete
+        )
 
     def schedule_group_membership_scan(self) -> asyncio.Task:
         """Rescan device group's membership."""
@@ -236,6 +241,10 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         return node_desc
 
     async def initialize(self) -> None:
+        if not self.is_initialized:
+            # The endpoints alone are not enough if the rest of the interview fails
+            self._interview_incomplete = True
+
         try:
             await self._initialize()
         except (asyncio.TimeoutError, zigpy.exceptions.ZigbeeException):
@@ -318,6 +327,8 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         self.info("Discovered basic device information for %s", self)
 
+        self._interview_incomplete = False
+
         # Signal to the application that the device is ready
         self._application.device_initialized(self)
 
-- 
2.43.0


From 64da26c4965187b5593a428d74722ceb20a932e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:31 +0000
Subject: [PATCH 029/100] fix: allow adding an endpoint to a group without a
 name

---
 zigpy/endpoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b68e5de..8474b86 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -151,7 +151,7 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
     async def add_to_group(self, grp_id: int, name: str | None = None) -> ZCLStatus:
         try:
-            res = await self.groups.add(grp_id, name)
+            res = await self.groups.add(grp_id, name or "")
         except AttributeError:
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
-- 
2.43.0


From a0fc7107ae84ae3fccc222784e061c3262f2eab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:56 +0000
Subject: [PATCH 030/100] fix: do not mistake the command in a default response
 for the status of a group request

---
 zigpy/endpoint.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index 8474b86..b989879 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -156,6 +156,10 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot add 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            self.debug("Device does not support group commands: %s", res)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.DUPLICATE_EXISTS):
             self.debug("Couldn't add to 0x%04x group: %s", grp_id, res[0])
             return res[0]
@@ -171,6 +175,10 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self.debug("Cannot remove 0x%04x group, no groups cluster", grp_id)
             return ZCLStatus.FAILURE
 
+        if isinstance(res, GENERAL_COMMANDS[GeneralCommand.Default_Response].schema):
+            self.debug("Device does not support group commands: %s", res)
+            return res.status
+
         if res[0] not in (ZCLStatus.SUCCESS, ZCLStatus.NOT_FOUND):
             self.debug("Couldn't remove to 0x%04x group: %s", grp_id, res[0])
             return res[0]
-- 
2.43.0


From f339baf6ef2e605efd40bf22be2058b7301603a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:08 +0000
Subject: [PATCH 031/100] fix: do not announce the removal of groups that do
 not exist

---
 zigpy/group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index ba89d55..d8ac7a9 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -151,7 +151,7 @@ class Groups(ListenableMixin, dict):
         if isinstance(group, Group):
             for member in (*group.values(),):
                 group.remove_member(member)
-        self.listener_event("group_removed", group)
+            self.listener_event("group_removed", group)
         return group
 
     remove_group = pop
-- 
2.43.0


From 21469c2d952f8ca91bf2d78f34a3e5fc8668f349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:43 +0000
Subject: [PATCH 032/100] fix: remove the endpoints of removed devices from
 their groups

---
 zigpy/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index 8f02bfb..2e3c247 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -515,6 +515,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                     parent.zdo.Mgmt_Leave_req(dev.ieee, opts)
                 )
 
+        for ep in dev.non_zdo_endpoints:
+            self.groups.update_group_membership(ep, set())
+
         self.listener_event("device_removed", dev)
 
     async def _remove_device(
-- 
2.43.0


From 0a35d6fb101cfd8be9021f742af112879a9944db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 033/100] fix: do not announce the removal of endpoints that
 are not members of a group

---
 zigpy/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index d8ac7a9..6ee461c 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -52,7 +52,9 @@ class Group(ListenableMixin, dict):
         return self
 
     def remove_member(self, ep: Endpoint, suppress_event: bool = False) -> Group:
-        self.pop(ep.unique_id, None)
+        if ep.unique_id not in self:
+            return self
+        self.pop(ep.unique_id)
         ep.member_of.pop(self.group_id, None)
         if not suppress_event:
             self.listener_event("member_removed", self, ep)
-- 
2.43.0


From 3b706d676ab3e560859d0fdd6bee3e486961e542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:48 +0000
Subject: [PATCH 034/100] fix: return the status of a default response as the
 failure of attribute reads

---
 zigpy/zcl/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 74c195b..233e6e6 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -585,9 +585,12 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(result[0], list):
+            # Assume default response
+            status = getattr(result, "status", result[0])
+
             for attrid in to_read:
                 orig_attribute = orig_attributes[attrid]
-                failure[orig_attribute] = result[0]  # Assume default response
+                failure[orig_attribute] = status
         else:
             for record in result[0]:
                 orig_attribute = orig_attributes[record.attrid]
-- 
2.43.0


From ae7a464ac7ba7695ff72e4590c8175ae6d8a241d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 035/100] fix: tolerate attributes that were not requested in
 read responses

---
 zigpy/zcl/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 233e6e6..d1ff628 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -593,7 +593,8 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 failure[orig_attribute] = status
         else:
             for record in result[0]:
-                orig_attribute = orig_attributes[record.attrid]
+                # Devices may respond with attributes that were not requested
+                orig_attribute = orig_attributes.get(record.attrid, record.attrid)
                 if record.status == foundation.Status.SUCCESS:
                     value = self._normalize_attribute(
                         record.attrid, record.value.value
-- 
2.43.0


From 75bee86048e229ab73eff456ec59bc940548a301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:56 +0000
Subject: [PATCH 036/100] fix: cache attributes that the device accepted in
 undivided writes

---
 zigpy/zcl/__init__.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index d1ff628..f2a2135 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -678,12 +678,23 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
 
         return result
 
-    def write_attributes_undivided(
+    async def write_attributes_undivided(
         self, attributes: dict[str | int, Any], manufacturer: int | None = None
     ) -> list:
         """Either all or none of the attributes are written by the device."""
-        args = self._write_attr_records(attributes)
-        return self._write_attributes_undivided(args, manufacturer=manufacturer)
+        attrs = self._write_attr_records(attributes)
+        result = await self._write_attributes_undivided(
+            attrs, manufacturer=manufacturer
+        )
+        if not isinstance(result[0], list):
+            return result
+
+        records = result[0]
+        if len(records) == 1 and records[0].status == foundation.Status.SUCCESS:
+            for attr_rec in attrs:
+                self._update_attribute(attr_rec.attrid, attr_rec.value.value)
+
+        return result
 
     def bind(self):
         return self._endpoint.device.zdo.bind(cluster=self)
-- 
2.43.0


From dc1ee8be062979b11a5719830c95b104c33691c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 037/100] fix: configure reporting with the ZCL type of the
 attribute

---
 zigpy/zcl/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index f2a2135..7dfa0c0 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -720,7 +720,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
         cfg = foundation.AttributeReportingConfig()
         cfg.direction = direction
         cfg.attrid = attr_def.id
-        cfg.datatype = foundation.DataType.from_python_type(attr_def.type).type_id
+        cfg.datatype = attr_def.zcl_type
         cfg.min_interval = min_interval
         cfg.max_interval = max_interval
         cfg.reportable_change = reportable_change
-- 
2.43.0


From b911aef40360e27c7758d737be2bdbb9b474d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:07 +0000
Subject: [PATCH 038/100] fix: reject OTA images with contradicting lengths

---
 zigpy/ota/image.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index a9e5296..a59f903 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -181,8 +181,18 @@ class OTAImage(t.Struct, BaseOTAImage):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[OTAImage, bytes]:
         hdr, data = OTAImageHeader.deserialize(data)
+
+        if hdr.header_length != len(hdr.serialize()):
+            raise ValueError(
+                f"Header length ({hdr.header_length} bytes) does not match actual"
+                f" header length ({len(hdr.serialize())} bytes)"
+            )
+
         elements_len = hdr.image_size - hdr.header_length
 
+        if elements_len < 0:
+            raise ValueError(f"Image size is too small for {cls}: {hdr.image_size}")
+
         if elements_len > len(data):
             raise ValueError(f"Data is too short for {cls}")
 
@@ -224,7 +234,12 @@ class HueSBLOTAImage(BaseOTAImage):
     @classmethod
     def deserialize(cls, data: bytes) -> tuple[Self, bytes]:
         header, remaining_data = OTAImageHeader.deserialize(data)
-        firmware = remaining_data[: header.image_size - len(header.serialize())]
+        firmware_len = header.image_size - len(header.serialize())
+
+        if firmware_len < 0:
+            raise ValueError(f"Image size is too small: {header.image_size}")
+
+        firmware = remaining_data[:firmware_len]
 
         if len(data) < header.image_size:
             raise ValueError(
-- 
2.43.0


From 18c2bcb5cca7452ddc05fb82949a0ebd0ca529f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:44 +0000
Subject: [PATCH 039/100] fix: reject IKEA containers with unexpected trailing
 data with a value error

---
 zigpy/ota/image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index a59f903..c4324ec 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -296,12 +296,14 @@ def parse_ota_image(data: bytes) -> tuple[BaseOTAImage, bytes]:
                 "Fixing IKEA OTA image with trailing data (%s bytes)",
                 size - image.header.image_size,
             )
-            image.header.image_size += len(rest)
-
             # No other structure has been observed
-            assert len(image.subelements) == 1
-            assert image.subelements[0].tag_id == ElementTagId.UPGRADE_IMAGE
+            if (
+                len(image.subelements) != 1
+                or image.subelements[0].tag_id != ElementTagId.UPGRADE_IMAGE
+            ):
+                raise ValueError("IKEA OTA image contains unexpected trailing data")
 
+            image.header.image_size += len(rest)
             image.subelements[0].data += rest
             rest = b""
 
-- 
2.43.0


From a6f39c4fc06aa9f6a7c5ae84c179750b2c80ce25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:41 +0000
Subject: [PATCH 040/100] fix: do not list newer OTA images that do not apply
 as downgrades

---
 zigpy/ota/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 99480a7..4830a44 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -439,7 +439,9 @@ class OTA:
             if img.check_version(query_cmd.current_file_version)
         }
         downgrades = {
-            img.metadata: img for img in candidates if img.metadata not in upgrades
+            img.metadata: img
+            for img in candidates
+            if img.version <= query_cmd.current_file_version
         }
 
         # Only download upgrade images, downgrades are used just to indicate the latest
-- 
2.43.0


From 199e0026cc4afb13f707768b8c0542cced4f6a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:45 +0000
Subject: [PATCH 041/100] fix: check the compatibility of downloaded OTA images

---
 zigpy/ota/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index 4830a44..fd0133b 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -471,7 +471,11 @@ class OTA:
                 _LOGGER.debug("Caching image %s", img)
                 self._image_cache[img.metadata] = img
 
-            upgrades[img.metadata] = img
+            # The header of the downloaded image may contain further restrictions
+            if img.check_compatibility(device, query_cmd):
+                upgrades[img.metadata] = img
+            else:
+                upgrades.pop(img.metadata)
 
         # As a final pass, identify images with identical versions and specificity but
         # differing contents
-- 
2.43.0


From 7050ca02467873f2e48a3a508837d27d2fe96b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:27 +0000
Subject: [PATCH 042/100] fix: allow forcing updates to Hue SBL OTA images

---
 zigpy/ota/image.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/ota/image.py b/zigpy/ota/image.py
index c4324ec..d392a88 100644
--- a/zigpy/ota/image.py
+++ b/zigpy/ota/image.py
@@ -218,7 +218,7 @@ class OTAImage(t.Struct, BaseOTAImage):
 
 
 @attr.s
-class HueSBLOTAImage(BaseOTAImage):
+class HueSBLOTAImage(t.BaseDataclassMixin, BaseOTAImage):
     """Unique OTA image format for certain Hue devices. Starts with a valid header but does
     not contain any valid subelements beyond that point.
     """
-- 
2.43.0


From a410591c09f23735c028a3a253fbfb08ebe760d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 043/100] fix: return the status of a successful OTA update
 when the device is away afterwards

---
 zigpy/device.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 2f6ee41..c01ca1b 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -625,9 +625,14 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         ota.update_attribute(Ota.AttributeDefs.current_file_version.id, None)
 
         await asyncio.sleep(AFTER_OTA_ATTR_READ_DELAY)
-        await OTA_RETRY_DECORATOR(ota.read_attributes)(
-            [Ota.AttributeDefs.current_file_version.name]
-        )
+
+        # The update itself succeeded, even if the device can't be reached right away
+        try:
+            await OTA_RETRY_DECORATOR(ota.read_attributes)(
+                [Ota.AttributeDefs.current_file_version.name]
+            )
+        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as exc:
+            self.debug("Failed to read file version after OTA", exc_info=exc)
 
         return result
 
-- 
2.43.0


From 69906b921aec1acad30a9af6db30f14c6718cbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:21 +0000
Subject: [PATCH 044/100] fix: skip unreadable files in the advanced OTA
 provider

---
 zigpy/ota/providers.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/zigpy/ota/providers.py b/zigpy/ota/providers.py
index 23eab72..2db37e9 100644
--- a/zigpy/ota/providers.py
+++ b/zigpy/ota/providers.py
@@ -733,9 +733,8 @@ class AdvancedFileProvider(BaseOtaProvider):
                 if not path.is_file():
                     continue
 
-                data = await loop.run_in_executor(None, path.read_bytes)
-
                 try:
+                    data = await loop.run_in_executor(None, path.read_bytes)
                     image, _ = parse_ota_image(data)
                 except Exception as exc:  # noqa: BLE001
                     LOGGER.debug("Failed to parse image %s: %r", path, exc)
-- 
2.43.0


From 1ffe5545d2f400e11158a726b77f1d4efceaa564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 045/100] fix: create client clusters added by quirks as
 clients

---
 zigpy/quirks/v2/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index e2d36fa..bcdcccd 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -160,7 +160,9 @@ class AddsMetadata:
             cluster = None
             cluster_id = self.cluster
         else:
-            cluster = self.cluster(endpoint, is_server=True)
+            cluster = self.cluster(
+                endpoint, is_server=self.cluster_type == ClusterType.Server
+            )
             cluster_id = cluster.cluster_id
 
         cluster = add_cluster(cluster_id, cluster)
-- 
2.43.0


From 3474fe7d76b0f9257c37c76b49ef7a76de3e6344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 046/100] fix: look up the constant attributes of v2 quirks by
 attribute id

---
 zigpy/quirks/v2/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index bcdcccd..5c503d1 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -169,8 +169,9 @@ class AddsMetadata:
 
         if self.constant_attributes:
             cluster._CONSTANT_ATTRIBUTES = {
-                attribute.name: value
+                key: value
                 for attribute, value in self.constant_attributes.items()
+                for key in (attribute.id, attribute.name)
             }
 
 
-- 
2.43.0


From 7c980335b11a09f3a190506f3aa11568dad64c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 047/100] fix: make clusters removed by quirks unreachable by
 name

---
 zigpy/quirks/v2/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/v2/__init__.py b/zigpy/quirks/v2/__init__.py
index 5c503d1..d5685a1 100644
--- a/zigpy/quirks/v2/__init__.py
+++ b/zigpy/quirks/v2/__init__.py
@@ -187,7 +187,13 @@ class RemovesMetadata:
         """Process the remove."""
         endpoint = device.endpoints[self.endpoint_id]
         if self.cluster_type == ClusterType.Server:
-            endpoint.in_clusters.pop(self.cluster_id, None)
+            cluster = endpoint.in_clusters.pop(self.cluster_id, None)
+
+            if (
+                cluster is not None
+                and endpoint._cluster_attr.get(cluster.ep_attribute) is cluster
+            ):
+                del endpoint._cluster_attr[cluster.ep_attribute]
         else:
             endpoint.out_clusters.pop(self.cluster_id, None)
 
-- 
2.43.0


From 703a96a263fea5c6383e4420a77f53a0a4789390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:31 +0000
Subject: [PATCH 048/100] fix: use the status of default responses when reading
 constant attributes

---
 zigpy/quirks/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 8d847c6..245d887 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -319,11 +319,14 @@ class CustomCluster(zigpy.zcl.Cluster):
             attrs_to_read, manufacturer=manufacturer, **kwargs
         )
         if not isinstance(results[0], list):
+            # Assume default response
+            status = getattr(results, "status", results[0])
+
             for attrid in attrs_to_read:
                 succeeded.append(  # noqa: PERF401
                     foundation.ReadAttributeRecord(
                         attrid,
-                        results[0],
+                        status,
                         foundation.TypeValue(),
                     )
                 )
-- 
2.43.0


From 344d4ebad10553c470e367bb5d3c28e9a4a84fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:30:02 +0000
Subject: [PATCH 049/100] fix: prefer constant attributes to cached values in
 every kind of cached read

---
 zigpy/quirks/__init__.py | 42 ++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 245d887..04c937c 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -287,6 +287,36 @@ class CustomCluster(zigpy.zcl.Cluster):
             **kwargs,
         )
 
+    async def read_attributes(
+        self,
+        attributes: list[int | str],
+        allow_cache: bool = False,
+        only_cache: bool = False,
+        manufacturer: int | t.uint16_t | None = None,
+        **kwargs,
+    ) -> typing.Any:
+        success, failure = await super().read_attributes(
+            attributes,
+            allow_cache=allow_cache,
+            only_cache=only_cache,
+            manufacturer=manufacturer,
+            **kwargs,
+        )
+
+        if self._CONSTANT_ATTRIBUTES and (allow_cache or only_cache):
+            # Constant attributes take precedence over whatever the cache contains
+            for attribute in attributes:
+                if isinstance(attribute, str):
+                    attrid = self.attributes_by_name[attribute].id
+                else:
+                    attrid = attribute
+
+                if attrid in self._CONSTANT_ATTRIBUTES:
+                    success[attribute] = self._CONSTANT_ATTRIBUTES[attrid]
+                    failure.pop(attribute, None)
+
+        return success, failure
+
     async def read_attributes_raw(
         self, attributes: list[uint16_t], manufacturer: uint16_t | None = None, **kwargs
     ):
@@ -417,6 +447,18 @@ class CustomCluster(zigpy.zcl.Cluster):
 
         return super().get(key, default)
 
+    def __getitem__(self, key: int | str) -> typing.Any:
+        """Return cached value of the attr."""
+        attr_def = self.find_attribute(key)
+
+        if (
+            self._CONSTANT_ATTRIBUTES is not None
+            and attr_def.id in self._CONSTANT_ATTRIBUTES
+        ):
+            return self._CONSTANT_ATTRIBUTES[attr_def.id]
+
+        return super().__getitem__(key)
+
     async def apply_custom_configuration(self, *args, **kwargs):
         """Hook for applications to instruct instances to apply custom configuration."""
 
-- 
2.43.0


From 149b42a061e52e45a156c58dde63e0ba1ed3724a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:44 +0000
Subject: [PATCH 050/100] fix: stop periodic topology scans even while one is
 running

---
 zigpy/topology.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 8dac4c4..50f8e1e 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -80,6 +80,11 @@ class Topology(zigpy.util.ListenableMixin):
                 # We explicitly catch a cancellation here to ensure the scan loop will
                 # not be interrupted if a manual scan is initiated
                 LOGGER.debug("Topology scan cancelled")
+
+                # A manual scan replaces the scheduled one. If it was not replaced, it
+                # is the loop itself that is being cancelled.
+                if self._scan_task is None or self._scan_task.cancelled():
+                    raise
             except (Exception, asyncio.CancelledError):
                 LOGGER.debug("Topology scan failed", exc_info=True)
 
-- 
2.43.0


From 7397f4b78a08ab60e96a16e513fe9e37f9d3e88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:44 +0000
Subject: [PATCH 051/100] fix: look up every unknown device of a topology scan
 even if a lookup fails

---
 zigpy/topology.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index 50f8e1e..dd33951 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -255,5 +255,10 @@ class Topology(zigpy.util.ListenableMixin):
         # Try to discover any unknown devices
         for nwk in unknown_nwks:
             LOGGER.debug("Found unknown device nwk=%s", nwk)
-            await self._app._discover_unknown_device(nwk)
+
+            try:
+                await self._app._discover_unknown_device(nwk)
+            except Exception as e:  # noqa: BLE001
+                LOGGER.debug("Failed to discover device nwk=%s", nwk, exc_info=e)
+
             await asyncio.sleep(random.uniform(*REQUEST_DELAY))
-- 
2.43.0


From 6d45fd678e5e206c3783aabcd85d80c63d87cd6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:44 +0000
Subject: [PATCH 052/100] fix: accept any iterable of devices to scan

---
 zigpy/topology.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/zigpy/topology.py b/zigpy/topology.py
index dd33951..994c7b5 100644
--- a/zigpy/topology.py
+++ b/zigpy/topology.py
@@ -164,8 +164,10 @@ class Topology(zigpy.util.ListenableMixin):
         """Scan topology."""
 
         if devices is None:
-            # We iterate over a copy of the devices as opposed to the live dictionary
-            devices = list(self._app.devices.values())
+            devices = self._app.devices.values()
+
+        # We iterate over a copy of the devices as opposed to the live dictionary
+        devices = list(devices)
 
         for index, device in enumerate(devices):
             LOGGER.debug(
-- 
2.43.0


From 99d2c641952db5f2dec08f4e9637339c6226f8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 053/100] fix: match structs that lack a nested struct or have
 fields the pattern does not

---
 zigpy/types/struct.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zigpy/types/struct.py b/zigpy/types/struct.py
index 1d07281..3908e72 100644
--- a/zigpy/types/struct.py
+++ b/zigpy/types/struct.py
@@ -434,15 +434,15 @@ class Struct:
         if not isinstance(self, type(other)) and not isinstance(other, type(self)):
             return False
 
-        for field in self.fields:
-            actual = getattr(self, field.name)
+        for field in other.fields:
+            actual = getattr(self, field.name, None)
             expected = getattr(other, field.name)
 
             if expected is None:
                 continue
 
             if isinstance(expected, Struct):
-                if not actual.matches(expected):
+                if not isinstance(actual, Struct) or not actual.matches(expected):
                     return False
             elif actual != expected:
                 return False
-- 
2.43.0


From 61149705587ec247cd49e79b1f5a855ff5eecd2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 054/100] fix: allow response listeners to be registered and
 removed by callbacks

---
 zigpy/device.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index c01ca1b..71be008 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -4,7 +4,6 @@ import asyncio
 import contextlib
 from datetime import datetime, timezone
 import enum
-import itertools
 import logging
 import sys
 import time
@@ -544,10 +543,17 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             return
 
         # Pass the request off to a listener, if one is registered
-        for listener in itertools.chain(
-            self._application._req_listeners[zigpy.listeners.ANY_DEVICE],
-            self._application._req_listeners[self],
-        ):
+        req_listeners = self._application._req_listeners
+
+        # Callbacks can register and remove listeners so we iterate over a copy
+        for source, listener in [
+            (source, listener)
+            for source in (zigpy.listeners.ANY_DEVICE, self)
+            for listener in req_listeners[source]
+        ]:
+            if listener not in req_listeners[source]:
+                continue
+
             # Resolve only until the first future listener
             if listener.resolve(hdr, args) and isinstance(
                 listener, zigpy.listeners.FutureListener
-- 
2.43.0


From 546548586096750faf2d533780e108e071eeb919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:18 +0000
Subject: [PATCH 055/100] fix: treat matchers that raise as not matching

---
 zigpy/listeners.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/listeners.py b/zigpy/listeners.py
index 503e7ca..2e6ad77 100644
--- a/zigpy/listeners.py
+++ b/zigpy/listeners.py
@@ -39,7 +39,12 @@ class BaseRequestListener:
                 # FIXME: ZDO does not use command schemas and cannot be matched
                 pass
             elif callable(matcher):
-                match = matcher(hdr, command)
+                try:
+                    match = matcher(hdr, command)
+                except Exception:  # noqa: BLE001
+                    LOGGER.warning(
+                        "Caught an exception while executing matcher", exc_info=True
+                    )
             else:
                 LOGGER.warning(
                     "Matcher %r and command %r %r are incompatible",
-- 
2.43.0


From 32b9cf5b4ec777cac4508c452ac54375b2033027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 056/100] fix: accept the string form of an address when
 permitting joining

---
 zigpy/application.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 2e3c247..417e84f 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -1254,7 +1254,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         """Permit joining on a specific node or all router nodes."""
         assert 0 <= time_s <= 254
         if node is not None:
-            if not isinstance(node, t.EUI64):
+            if isinstance(node, str):
+                node = t.EUI64.convert(node)
+            elif not isinstance(node, t.EUI64):
                 node = t.EUI64([t.uint8_t(p) for p in node])
             if node != self.state.node_info.ieee:
                 try:
-- 
2.43.0


From 1217855b5f312693259dbf283f3eec1b44968cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:11 +0000
Subject: [PATCH 057/100] fix: accept a kernel of a single weight when picking
 a channel

---
 zigpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 08fed28..67658d2 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -432,7 +432,7 @@ def pick_optimal_channel(
                 convolution[i + j] += ext_energies[i] * kernel[kernel_width + j]
 
     # Crop off the extended bounds, leaving us with an array of the original size
-    convolution = convolution[kernel_width:-kernel_width]
+    convolution = convolution[kernel_width : len(convolution) - kernel_width]
 
     # Incorporate a penalty to avoid specific channels unless absolutely necessary.
     # Adding `1` ensures the score is positive and the channel penalty gets applied even
-- 
2.43.0


From 43cd0a3bbf898fb2e615244144e66595e0c02794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:33 +0000
Subject: [PATCH 058/100] fix: never pick the reserved PAN ID 0xFFFF for a new
 network

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 417e84f..55699de 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -355,7 +355,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             stack_specific["form_quickly"] = True
 
         if pan_id is None:
-            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE + 1)
+            pan_id = random.SystemRandom().randint(0x0001, 0xFFFE)
 
         if channel is None and fast:
             # Don't run an energy scan if this is an ephemeral network
-- 
2.43.0


From 6e8b2f02cbebf6e60cf526aefaf2ca24d2df228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:17 +0000
Subject: [PATCH 059/100] fix: report every requested channel when an energy
 scan fails or is incomplete

---
 zigpy/application.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 55699de..710a8da 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -263,6 +263,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         self, channels: t.Channels, duration_exp: int, count: int
     ) -> dict[int, float]:
         """Runs an energy detection scan and returns the per-channel scan results."""
+        results = {channel: 0 for channel in channels}
+
         try:
             rsp = await self._device.zdo.Mgmt_NWK_Update_req(
                 zigpy.zdo.types.NwkUpdate(
@@ -271,14 +273,24 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
                     ScanCount=count,
                 )
             )
-        except (asyncio.TimeoutError, zigpy.exceptions.DeliveryError):
+        except (
+            asyncio.TimeoutError,
+            zigpy.exceptions.DeliveryError,
+            zigpy.exceptions.ParsingError,
+        ):
             LOGGER.warning("Coordinator does not support energy scanning")
-            scanned_channels = channels
-            energy_values = [0] * scanned_channels
-        else:
-            _, scanned_channels, _, _, energy_values = rsp
+            return results
+
+        status, scanned_channels, _, _, energy_values = rsp
+
+        if status != zdo_types.Status.SUCCESS:
+            LOGGER.warning("Coordinator refused the energy scan: %s", status)
+            return results
+
+        # Not every channel may have been scanned
+        results.update(zip(scanned_channels, energy_values))
 
-        return dict(zip(scanned_channels, energy_values))
+        return results
 
     async def _move_network_to_channel(
         self, new_channel: int, new_nwk_update_id: int
-- 
2.43.0


From b82242af21dccf03e1e5d31b47923116f0b36b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:35 +0000
Subject: [PATCH 060/100] fix: close the database when creating an application
 fails

---
 zigpy/application.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 710a8da..807eb2e 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -111,6 +111,18 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         await self._dblistener.load()
         self._add_db_listeners()
 
+    async def _close_db(self) -> None:
+        """Stop persisting changes and close the database."""
+        if self._dblistener is None:
+            return
+
+        self._remove_db_listeners()
+
+        try:
+            await self._dblistener.shutdown()
+        except Exception:  # noqa: BLE001
+            LOGGER.warning("Failed to disconnect from database", exc_info=True)
+
     def _add_db_listeners(self):
         if self._dblistener is None:
             return
@@ -252,10 +264,15 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         """Create new instance of application controller."""
         app = cls(config)
 
-        await app._load_db()
+        try:
+            await app._load_db()
 
-        if start_radio:
-            await app.startup(auto_form=auto_form)
+            if start_radio:
+                await app.startup(auto_form=auto_form)
+        except (Exception, asyncio.CancelledError):
+            # The caller has no way to close the database
+            await app._close_db()
+            raise
 
         return app
 
@@ -454,13 +471,8 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except Exception:  # noqa: BLE001
             LOGGER.warning("Failed to disconnect from radio", exc_info=True)
 
-        if db and self._dblistener:
-            self._remove_db_listeners()
-
-            try:
-                await self._dblistener.shutdown()
-            except Exception:  # noqa: BLE001
-                LOGGER.warning("Failed to disconnect from database", exc_info=True)
+        if db:
+            await self._close_db()
 
     def add_device(self, ieee: t.EUI64, nwk: t.NWK) -> zigpy.device.Device:
         """Creates a zigpy `Device` object with the provided IEEE and NWK addresses."""
-- 
2.43.0


From 565da4fa548e67977f4b76eab2b36385c5c66f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:17 +0000
Subject: [PATCH 061/100] fix: store the network address of a newly formed
 network's coordinator in backups

---
 zigpy/state.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/state.py b/zigpy/state.py
index 23943a2..74fae8a 100644
--- a/zigpy/state.py
+++ b/zigpy/state.py
@@ -68,7 +68,7 @@ class NodeInfo(t.BaseDataclassMixin):
 
     def as_dict(self) -> dict[str, Any]:
         return {
-            "nwk": str(self.nwk)[2:],
+            "nwk": str(t.NWK(self.nwk))[2:],
             "ieee": str(self.ieee),
             "logical_type": LOGICAL_TYPE_TO_JSON[self.logical_type],
             "model": self.model,
-- 
2.43.0


From 5a519230a226706adbc0f64dc8177027cd4b8ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:01 +0000
Subject: [PATCH 062/100] fix: close the database even if it cannot be
 checkpointed

---
 zigpy/appdb.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 080deef..3d9b918 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -193,15 +193,16 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if not self._worker_task.done():
             self._worker_task.cancel()
 
-        # Delete the journal on shutdown
-        await self._set_isolation_level(None)
-        await self.execute("PRAGMA wal_checkpoint;")
-        await self._set_isolation_level("DEFERRED")
-
-        await self._db.close()
-
-        # FIXME: aiosqlite's thread won't always be closed immediately
-        await asyncio.get_running_loop().run_in_executor(None, self._db.join)
+        try:
+            # Delete the journal on shutdown
+            await self._set_isolation_level(None)
+            await self.execute("PRAGMA wal_checkpoint;")
+            await self._set_isolation_level("DEFERRED")
+        finally:
+            await self._db.close()
+
+            # FIXME: aiosqlite's thread won't always be closed immediately
+            await asyncio.get_running_loop().run_in_executor(None, self._db.join)
 
     def enqueue(self, cb_name: str, *args) -> None:
         """Enqueue an async callback handler action."""
-- 
2.43.0


From 90a838db0eeb9949fd5719e12e7bc4387c1fbfce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 063/100] fix: disconnect the radio when starting up is
 cancelled

---
 zigpy/application.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index 807eb2e..ccd65b3 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -247,7 +247,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         try:
             await self.connect()
             await self.initialize(auto_form=auto_form)
-        except Exception as e:  # noqa: BLE001
+        except (Exception, asyncio.CancelledError) as e:  # noqa: BLE001
             await self.shutdown(db=False)
 
             if isinstance(e, ConnectionError) or (
-- 
2.43.0


From c145d5657b9dcd258c82be9abc2796c36d217a7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:27 +0000
Subject: [PATCH 064/100] fix: accept a configuration that was already
 validated

---
 zigpy/config/validators.py | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 4cad78f..ddfb54d 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -65,8 +65,13 @@ def cv_key(key: list[int]) -> t.KeyData:
     return t.KeyData(key)
 
 
-def cv_simple_descriptor(obj: dict[str, typing.Any]) -> zdo_t.SimpleDescriptor:
+def cv_simple_descriptor(
+    obj: dict[str, typing.Any] | zdo_t.SimpleDescriptor,
+) -> zdo_t.SimpleDescriptor:
     """Validates a ZDO simple descriptor."""
+    if isinstance(obj, zdo_t.SimpleDescriptor):
+        obj = obj.as_dict()
+
     if not isinstance(obj, dict):
         raise vol.Invalid("Not a dictionary")
 
@@ -109,18 +114,32 @@ def cv_folder(value: str) -> pathlib.Path:
     return path
 
 
-def cv_ota_provider_name(name: str | None) -> type[zigpy.ota.providers.BaseOtaProvider]:
+def cv_ota_provider_name(
+    name: str | type[zigpy.ota.providers.BaseOtaProvider] | None,
+) -> type[zigpy.ota.providers.BaseOtaProvider]:
     """Validate OTA provider name."""
     import zigpy.ota.providers
 
+    # The configuration may already have been validated
+    if name in zigpy.ota.providers.OTA_PROVIDER_TYPES.values():
+        return name
+
     if name not in zigpy.ota.providers.OTA_PROVIDER_TYPES:
         raise vol.Invalid(f"Unknown OTA provider: {name!r}")
 
     return zigpy.ota.providers.OTA_PROVIDER_TYPES[name]
 
 
-def cv_ota_provider(obj: dict) -> zigpy.ota.providers.BaseOtaProvider:
+def cv_ota_provider(
+    obj: dict | zigpy.ota.providers.BaseOtaProvider,
+) -> zigpy.ota.providers.BaseOtaProvider:
     """Validate OTA provider."""
+    import zigpy.ota.providers
+
+    # The configuration may already have been validated
+    if isinstance(obj, zigpy.ota.providers.BaseOtaProvider):
+        return obj
+
     provider_type = obj.get(zigpy.config.CONF_OTA_PROVIDER_TYPE)
     provider_cls = cv_ota_provider_name(provider_type)
 
-- 
2.43.0


From 2f02b7476e3a57915741e2b72df02c5cd9511942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 065/100] fix: reject malformed addresses in the configuration
 as invalid

---
 zigpy/config/__init__.py   |  6 ++++--
 zigpy/config/validators.py | 20 ++++++++++++++++++++
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/zigpy/config/__init__.py b/zigpy/config/__init__.py
index 1943c44..9f43c71 100644
--- a/zigpy/config/__init__.py
+++ b/zigpy/config/__init__.py
@@ -37,8 +37,10 @@ from zigpy.config.defaults import (
 from zigpy.config.validators import (
     cv_boolean,
     cv_deprecated,
+    cv_extended_pan_id,
     cv_folder,
     cv_hex,
+    cv_ieee,
     cv_json_file,
     cv_key,
     cv_ota_provider,
@@ -132,7 +134,7 @@ SCHEMA_NETWORK = vol.Schema(
         ),
         vol.Optional(
             CONF_NWK_EXTENDED_PAN_ID, default=CONF_NWK_EXTENDED_PAN_ID_DEFAULT
-        ): vol.Any(None, t.ExtendedPanId, t.ExtendedPanId.convert),
+        ): vol.Any(None, t.ExtendedPanId, cv_extended_pan_id),
         vol.Optional(CONF_NWK_KEY, default=CONF_NWK_KEY_DEFAULT): vol.Any(None, cv_key),
         vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.Range(
             min=0, max=255
@@ -141,7 +143,7 @@ SCHEMA_NETWORK = vol.Schema(
             None, t.PanId, vol.All(cv_hex, vol.Coerce(t.PanId))
         ),
         vol.Optional(CONF_NWK_TC_ADDRESS, default=CONF_NWK_TC_ADDRESS_DEFAULT): vol.Any(
-            None, t.EUI64, t.EUI64.convert
+            None, t.EUI64, cv_ieee
         ),
         vol.Optional(
             CONF_NWK_TC_LINK_KEY, default=CONF_NWK_TC_LINK_KEY_DEFAULT
diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index ddfb54d..d65e9d5 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -51,6 +51,26 @@ def cv_hex(value: int | str) -> int:
     return value
 
 
+def cv_ieee(value: str) -> t.EUI64:
+    """Convert a string into an IEEE address."""
+    return _convert_ieee(t.EUI64, value)
+
+
+def cv_extended_pan_id(value: str) -> t.ExtendedPanId:
+    """Convert a string into an extended PAN ID."""
+    return _convert_ieee(t.ExtendedPanId, value)
+
+
+def _convert_ieee(cls: type[t.EUI64], value: str) -> t.EUI64:
+    if not isinstance(value, str):
+        raise vol.Invalid(f"{value} is not a string")
+
+    try:
+        return cls.convert(value)
+    except (AssertionError, ValueError) as err:
+        raise vol.Invalid(f"Could not convert '{value}' to {cls.__name__}") from err
+
+
 def cv_key(key: list[int]) -> t.KeyData:
     """Validate a key."""
     if not isinstance(key, list) or not all(isinstance(v, int) for v in key):
-- 
2.43.0


From ac02af0b688755dc5a2b416adff3de6700a5ee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 066/100] fix: accept only integers, in either form, as the key
 sequence number

---
 zigpy/config/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/config/__init__.py b/zigpy/config/__init__.py
index 9f43c71..9262772 100644
--- a/zigpy/config/__init__.py
+++ b/zigpy/config/__init__.py
@@ -136,8 +136,8 @@ SCHEMA_NETWORK = vol.Schema(
             CONF_NWK_EXTENDED_PAN_ID, default=CONF_NWK_EXTENDED_PAN_ID_DEFAULT
         ): vol.Any(None, t.ExtendedPanId, cv_extended_pan_id),
         vol.Optional(CONF_NWK_KEY, default=CONF_NWK_KEY_DEFAULT): vol.Any(None, cv_key),
-        vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.Range(
-            min=0, max=255
+        vol.Optional(CONF_NWK_KEY_SEQ, default=CONF_NWK_KEY_SEQ_DEFAULT): vol.All(
+            cv_hex, vol.Range(min=0, max=255)
         ),
         vol.Optional(CONF_NWK_PAN_ID, default=CONF_NWK_PAN_ID_DEFAULT): vol.Any(
             None, t.PanId, vol.All(cv_hex, vol.Coerce(t.PanId))
-- 
2.43.0


From 38f9768f9baac09e70b0147fd3c5537221a16664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 067/100] fix: reject channel lists with anything but integers
 as invalid

---
 zigpy/config/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/config/__init__.py b/zigpy/config/__init__.py
index 9262772..4b99aef 100644
--- a/zigpy/config/__init__.py
+++ b/zigpy/config/__init__.py
@@ -130,7 +130,7 @@ SCHEMA_NETWORK = vol.Schema(
             None, vol.All(cv_hex, vol.Range(min=11, max=26))
         ),
         vol.Optional(CONF_NWK_CHANNELS, default=CONF_NWK_CHANNELS_DEFAULT): vol.Any(
-            t.Channels, vol.All(list, t.Channels.from_channel_list)
+            t.Channels, vol.All([int], t.Channels.from_channel_list)
         ),
         vol.Optional(
             CONF_NWK_EXTENDED_PAN_ID, default=CONF_NWK_EXTENDED_PAN_ID_DEFAULT
-- 
2.43.0


From 9e1526f46dc5cc448c3bd58f2a7ddbf6c8f1bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:53 +0000
Subject: [PATCH 068/100] fix: reject paths of a wrong type in the
 configuration as invalid

---
 zigpy/config/validators.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index d65e9d5..31fa9a0 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -114,8 +114,11 @@ def cv_deprecated(message: str) -> typing.Callable[[typing.Any], typing.Any]:
     return wrapper
 
 
-def cv_json_file(value: str) -> pathlib.Path:
+def cv_json_file(value: str | pathlib.Path) -> pathlib.Path:
     """Validate a JSON file."""
+    if not isinstance(value, (str, pathlib.Path)):
+        raise vol.Invalid(f"{value} is not a path")
+
     path = pathlib.Path(value)
 
     if not path.is_file():
@@ -124,8 +127,11 @@ def cv_json_file(value: str) -> pathlib.Path:
     return path
 
 
-def cv_folder(value: str) -> pathlib.Path:
+def cv_folder(value: str | pathlib.Path) -> pathlib.Path:
     """Validate a folder path."""
+    if not isinstance(value, (str, pathlib.Path)):
+        raise vol.Invalid(f"{value} is not a path")
+
     path = pathlib.Path(value)
 
     if not path.is_dir():
-- 
2.43.0


From e6e0fd31629a3cf58c1065c394f554054af39557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:17 +0000
Subject: [PATCH 069/100] fix: reject malformed OTA providers in the
 configuration as invalid

---
 zigpy/config/validators.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 31fa9a0..727636b 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -150,7 +150,10 @@ def cv_ota_provider_name(
     if name in zigpy.ota.providers.OTA_PROVIDER_TYPES.values():
         return name
 
-    if name not in zigpy.ota.providers.OTA_PROVIDER_TYPES:
+    if (
+        not isinstance(name, str)
+        or name not in zigpy.ota.providers.OTA_PROVIDER_TYPES
+    ):
         raise vol.Invalid(f"Unknown OTA provider: {name!r}")
 
     return zigpy.ota.providers.OTA_PROVIDER_TYPES[name]
@@ -166,6 +169,9 @@ def cv_ota_provider(
     if isinstance(obj, zigpy.ota.providers.BaseOtaProvider):
         return obj
 
+    if not isinstance(obj, dict):
+        raise vol.Invalid(f"OTA provider is not a dictionary: {obj!r}")
+
     provider_type = obj.get(zigpy.config.CONF_OTA_PROVIDER_TYPE)
     provider_cls = cv_ota_provider_name(provider_type)
 
-- 
2.43.0


From 3de19ca2ccbaafc032c056b57f9e15f0e583e513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:08 +0000
Subject: [PATCH 070/100] fix: reject malformed additional endpoints as invalid

---
 zigpy/config/validators.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/config/validators.py b/zigpy/config/validators.py
index 727636b..db9ad6c 100644
--- a/zigpy/config/validators.py
+++ b/zigpy/config/validators.py
@@ -95,7 +95,10 @@ def cv_simple_descriptor(
     if not isinstance(obj, dict):
         raise vol.Invalid("Not a dictionary")
 
-    descriptor = zdo_t.SimpleDescriptor(**obj)
+    try:
+        descriptor = zdo_t.SimpleDescriptor(**obj)
+    except (TypeError, ValueError) as err:
+        raise vol.Invalid(f"Invalid simple descriptor {obj!r}") from err
 
     if not descriptor.is_valid:
         raise vol.Invalid(f"Invalid simple descriptor {descriptor!r}")
-- 
2.43.0


From cffae503d684e2061325b48d2df2df282e6235f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:18 +0000
Subject: [PATCH 071/100] fix: deliver asynchronous events to every listener
 when one raises immediately

---
 zigpy/util.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 67658d2..0d575e1 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -70,6 +70,7 @@ class ListenableMixin:
         return result
 
     async def async_event(self, method_name: str, *args) -> list[typing.Any]:
+        methods = []
         tasks = []
         for listener, include_context in tuple(self._listeners.values()):
             method = getattr(listener, method_name, None)
@@ -77,13 +78,22 @@ class ListenableMixin:
             if method is None:
                 continue
 
-            if include_context:
-                tasks.append(method(self, *args))
+            try:
+                if include_context:
+                    tasks.append(method(self, *args))
+                else:
+                    tasks.append(method(*args))
+            except Exception as e:  # noqa: BLE001
+                LOGGER.debug(
+                    "Error calling listener %r with args %r", method, args, exc_info=e
+                )
             else:
-                tasks.append(method(*args))
+                methods.append(method)
 
         results = []
-        for result in await asyncio.gather(*tasks, return_exceptions=True):
+        for method, result in zip(
+            methods, await asyncio.gather(*tasks, return_exceptions=True)
+        ):
             if isinstance(result, Exception):
                 LOGGER.debug(
                     "Error calling listener %r with args %r",
-- 
2.43.0


From f5d9a7e53de00542e24d18feb1f47ea5d33a7aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 072/100] fix: do not cancel combined calls of others when one
 caller is cancelled

---
 zigpy/util.py | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/zigpy/util.py b/zigpy/util.py
index 0d575e1..5b085df 100644
--- a/zigpy/util.py
+++ b/zigpy/util.py
@@ -492,6 +492,7 @@ def combine_concurrent_calls(
     """Decorator that allows concurrent calls to expensive coroutines to share a result."""
 
     tasks: dict[tuple, asyncio.Task] = {}
+    waiters: dict[asyncio.Task, int] = {}
     signature = inspect.signature(function)
 
     @functools.wraps(function)
@@ -502,16 +503,35 @@ def combine_concurrent_calls(
         # XXX: all args and kwargs are assumed to be hashable
         key = tuple(bound.arguments.items())
 
-        if key in tasks:
-            return await tasks[key]
+        task = tasks.get(key)
 
-        tasks[key] = asyncio.create_task(function(*args, **kwargs))
+        if task is None or task.done():
+            task = tasks[key] = asyncio.create_task(function(*args, **kwargs))
+            waiters[task] = 0
+
+        waiters[task] += 1
 
         try:
-            return await tasks[key]
+            # A single cancelled caller must not cancel the call for all of the others
+            return await asyncio.shield(task)
+        except asyncio.CancelledError:
+            if waiters[task] > 1 or task.done():
+                raise
+
+            # Nobody else is waiting. New callers will start over.
+            if tasks.get(key) is task:
+                del tasks[key]
+
+            task.cancel()
+            return await task
         finally:
-            assert tasks[key].done()
-            del tasks[key]
+            waiters[task] -= 1
+
+            if not waiters[task]:
+                del waiters[task]
+
+                if tasks.get(key) is task:
+                    del tasks[key]
 
     return replacement
 
-- 
2.43.0


From c3be49551a2afa8754ac9f9cd9d5729a1629e95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:06 +0000
Subject: [PATCH 073/100] fix: report the command that was sent as the outcome
 of a group request

---
 zigpy/group.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/group.py b/zigpy/group.py
index 6ee461c..62ae068 100644
--- a/zigpy/group.py
+++ b/zigpy/group.py
@@ -79,11 +79,13 @@ class Group(ListenableMixin, dict):
             )
         )
 
+        hdr, _ = foundation.ZCLHeader.deserialize(data)
+
         return foundation.GENERAL_COMMANDS[
             foundation.GeneralCommand.Default_Response
         ].schema(
             status=foundation.Status.SUCCESS,
-            command_id=data[2],
+            command_id=hdr.command_id,
         )
 
     def __repr__(self) -> str:
-- 
2.43.0


From f8de81498e4853f5c84e55524e73e347a0ab142d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:59 +0000
Subject: [PATCH 074/100] fix: keep the manufacturer and model of a quirk when
 loading its device

---
 zigpy/appdb.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 3d9b918..eb49c19 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -741,15 +741,18 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     value,
                 )
 
-                # Populate the device's manufacturer and model attributes
+                # Populate the device's manufacturer and model attributes. They are not
+                # replaced: the first endpoint to provide them or a quirk decides.
                 if (
                     cluster_id == Basic.cluster_id
                     and attr_id == Basic.AttributeDefs.manufacturer.id
+                    and dev.manufacturer is None
                 ):
                     dev.manufacturer = decode_str_attribute(value)
                 elif (
                     cluster_id == Basic.cluster_id
                     and attr_id == Basic.AttributeDefs.model.id
+                    and dev.model is None
                 ):
                     dev.model = decode_str_attribute(value)
 
-- 
2.43.0


From 42b56823319e0d110e877e9fb7bf17fddfbe64b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:44 +0000
Subject: [PATCH 075/100] fix: keep when attributes were updated and which are
 unsupported when a quirk is applied

---
 zigpy/quirks/__init__.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/zigpy/quirks/__init__.py b/zigpy/quirks/__init__.py
index 04c937c..09a22f7 100644
--- a/zigpy/quirks/__init__.py
+++ b/zigpy/quirks/__init__.py
@@ -182,11 +182,10 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                     endpoint_id in replace_device.endpoints
                     and cluster_id in replace_device.endpoints[endpoint_id].in_clusters
                 ):
-                    cluster._attr_cache = (
-                        replace_device[endpoint_id]
-                        .in_clusters[cluster_id]
-                        ._attr_cache.copy()
-                    )
+                    replaced = replace_device[endpoint_id].in_clusters[cluster_id]
+                    cluster._attr_cache = replaced._attr_cache.copy()
+                    cluster._attr_last_updated = replaced._attr_last_updated.copy()
+                    cluster.unsupported_attributes |= replaced.unsupported_attributes
 
         for c in replacement_data.get(SIG_EP_OUTPUT, []):
             if isinstance(c, int):
@@ -201,11 +200,10 @@ class CustomEndpoint(zigpy.endpoint.Endpoint):
                     endpoint_id in replace_device.endpoints
                     and cluster_id in replace_device.endpoints[endpoint_id].out_clusters
                 ):
-                    cluster._attr_cache = (
-                        replace_device[endpoint_id]
-                        .out_clusters[cluster_id]
-                        ._attr_cache.copy()
-                    )
+                    replaced = replace_device[endpoint_id].out_clusters[cluster_id]
+                    cluster._attr_cache = replaced._attr_cache.copy()
+                    cluster._attr_last_updated = replaced._attr_last_updated.copy()
+                    cluster.unsupported_attributes |= replaced.unsupported_attributes
 
 
 class CustomCluster(zigpy.zcl.Cluster):
-- 
2.43.0


From 72746437aad3a4795a860f733bc077afb9f138d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:49 +0000
Subject: [PATCH 076/100] fix: load IEEE addresses in the attribute cache as
 such

---
 zigpy/appdb.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index eb49c19..815b2af 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -727,9 +727,22 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 if cluster_id not in clusters:
                     continue
 
-                clusters[cluster_id]._attr_cache[attr_id] = value
-                clusters[cluster_id]._attr_last_updated[attr_id] = (
-                    datetime.fromtimestamp(last_updated, timezone.utc)
+                cluster = clusters[cluster_id]
+                attr_def = cluster.attributes.get(attr_id)
+
+                # IEEE addresses are stored as strings
+                if (
+                    isinstance(value, str)
+                    and attr_def is not None
+                    and issubclass(attr_def.type, t.EUI64)
+                ):
+                    # The value of a misbehaving device need not be an address
+                    with contextlib.suppress(AssertionError, ValueError):
+                        value = t.EUI64.convert(value)
+
+                cluster._attr_cache[attr_id] = value
+                cluster._attr_last_updated[attr_id] = datetime.fromtimestamp(
+                    last_updated, timezone.utc
                 )
 
                 LOGGER.debug(
-- 
2.43.0


From 1c237ac65f8f1c7e99332297d36016a883d83fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:18 +0000
Subject: [PATCH 077/100] fix: forget everything about devices that join again
 while they are removed

---
 zigpy/application.py | 18 +++++++++++-------
 zigpy/device.py      |  4 ++++
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/zigpy/application.py b/zigpy/application.py
index ccd65b3..da0ab0d 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -511,6 +511,7 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         dev.cancel_initialization()
 
         LOGGER.info("Removing device 0x%04x (%s)", dev.nwk, ieee)
+        self._pending_removals.add(dev)
         self.create_task(
             self._remove_device(dev, remove_children=remove_children, rejoin=rejoin),
             f"remove_device-nwk={dev.nwk!r}-ieee={ieee!r}",
@@ -551,8 +552,6 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         rejoin: bool = False,
     ) -> None:
         """Send a remove request then pop the device."""
-        self._pending_removals.add(device)
-
         try:
             async with asyncio_timeout(
                 30
@@ -563,10 +562,11 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as ex:
             LOGGER.debug("Sending 'zdo_leave_req' failed: %s", ex)
 
+        self._pending_removals.discard(device)
+
         # The device may have joined again in the meantime
-        if device in self._pending_removals:
-            self._pending_removals.remove(device)
-            self.devices.pop(device.ieee, None)
+        if self.devices.get(device.ieee) is device:
+            self.devices.pop(device.ieee)
 
     def deserialize(
         self,
@@ -603,15 +603,19 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
 
         if dev.nwk != nwk:
             LOGGER.debug("Device %s changed id (0x%04x => 0x%04x)", ieee, dev.nwk, nwk)
-            dev.nwk = nwk
             new_join = True
 
+            if dev in self._pending_removals:
+                # Nothing that was known about a removed device is kept
+                dev = self.add_device(ieee, nwk)
+            else:
+                dev.nwk = nwk
+
         # Not all stacks send a ZDO command when a device joins so the last_seen should
         # be updated
         dev.update_last_seen()
 
         if new_join:
-            self._pending_removals.discard(dev)
             self.listener_event("device_joined", dev)
             dev.schedule_initialize()
         elif not dev.is_initialized:
diff --git a/zigpy/device.py b/zigpy/device.py
index 71be008..ac8e8d4 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -205,6 +205,10 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             self._initialize_task.cancel()  # type:ignore[union-attr]
 
     def schedule_initialize(self) -> asyncio.Task | None:
+        if self in self._application._pending_removals:
+            self.debug("Skipping initialization, device is being removed")
+            return None
+
         # Already-initialized devices don't need to be re-initialized
         if self.is_initialized:
             self.debug("Skipping initialization, device is fully initialized")
-- 
2.43.0


From b4afa215aed90ad7c60dce8f343b9b35ab3ee73c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:56 +0000
Subject: [PATCH 078/100] fix: forget the topology of removed devices

---
 zigpy/appdb.py       | 8 ++++++++
 zigpy/application.py | 3 +++
 2 files changed, 11 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 815b2af..f435274 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -445,6 +445,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _remove_device(self, device: zigpy.typing.DeviceType) -> None:
         await self.execute(f"DELETE FROM devices{DB_V} WHERE ieee = ?", (device.ieee,))
+        # Unlike other tables, routes do not reference devices
+        await self.execute(
+            f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", (device.ieee,)
+        )
         await self._db.commit()
 
     def raw_device_initialized(self, device: zigpy.typing.DeviceType) -> None:
@@ -866,6 +870,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
     async def _load_routes(self) -> None:
         async with self.execute(f"SELECT * FROM routes{DB_V}") as cursor:
             async for ieee, *fields in cursor:
+                # Routes can be left over from devices that are not known anymore
+                if ieee not in self._application.devices:
+                    continue
+
                 route = zdo_t.Route(*fields)
                 self._application.topology.routes[ieee].append(route)
 
diff --git a/zigpy/application.py b/zigpy/application.py
index da0ab0d..ef93352 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -543,6 +543,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
         for ep in dev.non_zdo_endpoints:
             self.groups.update_group_membership(ep, set())
 
+        self.topology.neighbors.pop(ieee, None)
+        self.topology.routes.pop(ieee, None)
+
         self.listener_event("device_removed", dev)
 
     async def _remove_device(
-- 
2.43.0


From 3ccc44d29a911eb3d5fb2c88f29c909988306ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:04 +0000
Subject: [PATCH 079/100] fix: save the relays of a device received before it
 is initialized

---
 zigpy/appdb.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index f435274..f489fbe 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -268,6 +268,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         self.enqueue("_save_device_relays", device.ieee, relays)
 
     async def _save_device_relays(self, ieee: t.EUI64, relays: t.Relays | None) -> None:
+        await self._save_relays(ieee, relays)
+        await self._db.commit()
+
+    async def _save_relays(self, ieee: t.EUI64, relays: t.Relays | None) -> None:
         if relays is None:
             await self.execute(f"DELETE FROM relays{DB_V} WHERE ieee = ?", (ieee,))
         else:
@@ -276,8 +280,6 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                         DO UPDATE SET relays=excluded.relays WHERE relays != :relays"""
             await self.execute(q, {"ieee": ieee, "relays": relays.serialize()})
 
-        await self._db.commit()
-
     def attribute_updated(
         self,
         cluster: zigpy.typing.ClusterType,
@@ -475,6 +477,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if device.node_desc is not None:
             await self._save_node_descriptor(device)
 
+        # They may have been received before the device was initialized
+        await self._save_relays(device.ieee, device.relays)
+
         if isinstance(device, zigpy.quirks.BaseCustomDevice):
             await self._db.commit()
             return
-- 
2.43.0


From 8140b482d59c76303cc20566eb1e983472bf9f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:09 +0000
Subject: [PATCH 080/100] fix: save the neighbors of a device scanned before it
 is initialized

---
 zigpy/appdb.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index f489fbe..86527d6 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -368,6 +368,12 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
     async def _neighbors_updated(
         self, ieee: t.EUI64, neighbors: list[zdo_t.Neighbor]
+    ) -> None:
+        await self._save_neighbors(ieee, neighbors)
+        await self._db.commit()
+
+    async def _save_neighbors(
+        self, ieee: t.EUI64, neighbors: list[zdo_t.Neighbor]
     ) -> None:
         await self.execute(f"DELETE FROM neighbors{DB_V} WHERE device_ieee = ?", [ieee])
 
@@ -376,7 +382,6 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         await self._db.executemany(
             f"INSERT INTO neighbors{DB_V} VALUES (?,?,?,?,?,?,?,?,?,?,?,?)", rows
         )
-        await self._db.commit()
 
     def routes_updated(self, ieee: t.EUI64, routes: list[zdo_t.Route]) -> None:
         """Route update from Mgmt_Rtg_req."""
@@ -477,9 +482,13 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if device.node_desc is not None:
             await self._save_node_descriptor(device)
 
-        # They may have been received before the device was initialized
+        # These may have been received before the device was initialized
         await self._save_relays(device.ieee, device.relays)
 
+        topology = self._application.topology
+        if device.ieee in topology.neighbors:
+            await self._save_neighbors(device.ieee, topology.neighbors[device.ieee])
+
         if isinstance(device, zigpy.quirks.BaseCustomDevice):
             await self._db.commit()
             return
-- 
2.43.0


From 49a2211af849d45c998e018db38695bd85544a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:10 +0000
Subject: [PATCH 081/100] fix: keep values of unexpected types that are no
 valid IEEE address

---
 zigpy/zcl/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 7dfa0c0..1728b4f 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -473,7 +473,13 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
             if issubclass(attr_type, bytes) and isinstance(value, int):
                 raise TypeError(f"{value!r} is not a byte string")
 
-            return attr_type(value)
+            converted = attr_type(value)
+
+            # Lists can be created from anything
+            if isinstance(converted, list):
+                converted.serialize()
+
+            return converted
         except Exception:  # noqa: BLE001
             self.debug(
                 "Couldn't normalize %a attribute with %s value",
-- 
2.43.0


From d02a245c3fa0ff63f12e1af55733848fcdab1307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 082/100] fix: create the tables of a new database in a
 transaction

---
 zigpy/appdb.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 86527d6..3624afe 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -973,7 +973,9 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         if db_version == 0 and not tables:
             # If this is a brand new database, just load the current schema
-            await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+            async with self._transaction():
+                await self.executescript(zigpy.appdb_schemas.SCHEMAS[DB_VERSION])
+
             return False
         elif db_version > DB_VERSION:
             LOGGER.error(
-- 
2.43.0


From 519ca8090f1c697d57bebd90b3ed545e9ca65adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:44 +0000
Subject: [PATCH 083/100] fix: roll back what a failed database operation left
 unfinished

---
 zigpy/appdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 3624afe..f81c096 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -172,7 +172,12 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             handler = getattr(self, cb_name)
             assert handler
             try:
-                await handler(*args)
+                try:
+                    await handler(*args)
+                except Exception:  # noqa: BLE001
+                    # The next handler would commit what this one left unfinished
+                    await self._db.rollback()
+                    raise
             except sqlite3.Error as exc:
                 LOGGER.debug(
                     "Error handling '%s' event with %s params: %s",
-- 
2.43.0


From d86adf66a0b8de564c5b2468e7eb72e7a81cf8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:31 +0000
Subject: [PATCH 084/100] fix: save devices whose attribute cache contains
 values unknown to SQLite

---
 zigpy/appdb.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index f81c096..07e2c19 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -579,7 +579,18 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         q = f"""INSERT INTO attributes_cache{DB_V} VALUES (?, ?, ?, ?, ?, ?, ?)
                     ON CONFLICT (ieee, endpoint_id, cluster_type, cluster_id, attr_id)
                     DO UPDATE SET value=excluded.value, last_updated=excluded.last_updated"""
-        await self._db.executemany(q, clusters)
+
+        for row in clusters:
+            try:
+                await self.execute(q, row)
+            except (
+                sqlite3.IntegrityError,
+                sqlite3.InterfaceError,
+                sqlite3.ProgrammingError,
+                OverflowError,
+            ) as exc:
+                # A single value of a type unknown to SQLite must not lose the device
+                LOGGER.debug("Cannot store attribute %s: %r", row, exc)
 
     async def _save_unsupported_attributes(self, ep: zigpy.typing.EndpointType) -> None:
         clusters = [
-- 
2.43.0


From a7270984a76df6095063721858e0e29a1f4f0d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:18 +0000
Subject: [PATCH 085/100] fix: do not store a device with a quirk whose
 interview could not be stored

---
 zigpy/appdb.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 07e2c19..2ef2ea6 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -467,6 +467,14 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         self.enqueue("_save_device", device)
 
     async def _save_device(self, device: zigpy.typing.DeviceType) -> None:
+        if isinstance(device, zigpy.quirks.BaseCustomDevice):
+            # Only the original device can be stored, this one may only be updated
+            async with self.execute(
+                f"SELECT 1 FROM devices{DB_V} WHERE ieee = ?", (device.ieee,)
+            ) as cursor:
+                if await cursor.fetchone() is None:
+                    return
+
         q = f"""INSERT INTO devices{DB_V} (ieee, nwk, status, last_seen)
                     VALUES (?, ?, ?, ?)
                     ON CONFLICT (ieee)
-- 
2.43.0


From d73d068b25efd2e97d4d6afcd960b57f92667ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 086/100] fix: store devices with inactive endpoints

---
 zigpy/appdb.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 2ef2ea6..6c1c384 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -36,6 +36,9 @@ MIN_SQLITE_VERSION = (3, 24, 0)
 UNIX_EPOCH = datetime.fromtimestamp(0, tz=timezone.utc)
 DB_V_REGEX = re.compile(r"(?:_v\d+)?$")
 
+# Inactive endpoints have neither a profile nor a device type
+MISSING = -1
+
 MIN_UPDATE_DELTA = timedelta(seconds=30).total_seconds()
 
 
@@ -518,8 +521,8 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             (
                 device.ieee,
                 ep.endpoint_id,
-                ep.profile_id,
-                ep.device_type,
+                MISSING if ep.profile_id is None else ep.profile_id,
+                MISSING if ep.device_type is None else ep.device_type,
                 ep.status,
             )
             for ep in device.non_zdo_endpoints
@@ -859,14 +862,14 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
             async for ieee, epid, profile_id, device_type, status in cursor:
                 dev = self._application.get_device(ieee)
                 ep = dev.add_endpoint(epid)
-                ep.profile_id = profile_id
+                ep.profile_id = None if profile_id == MISSING else profile_id
                 ep.status = zigpy.endpoint.Status(status)
 
                 if profile_id == zigpy.profiles.zha.PROFILE_ID:
                     ep.device_type = zigpy.profiles.zha.DeviceType(device_type)
                 elif profile_id == zigpy.profiles.zll.PROFILE_ID:
                     ep.device_type = zigpy.profiles.zll.DeviceType(device_type)
-                else:
+                elif device_type != MISSING:
                     ep.device_type = device_type
 
     async def _load_clusters(self) -> None:
-- 
2.43.0


From bab174cb93ca5392191bdcdb32995264479ffe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:02 +0000
Subject: [PATCH 087/100] fix: keep inactive endpoints when upgrading databases
 older than v5

---
 zigpy/appdb.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 6c1c384..4f4b9ce 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -1042,9 +1042,19 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         return True
 
     async def _migrate_tables(
-        self, table_map: dict[str, str], *, errors: str = "raise"
+        self,
+        table_map: dict[str, str],
+        *,
+        errors: str = "raise",
+        null_values: dict[str, Any] | None = None,
     ):
-        """Copy rows from one set of tables into another."""
+        """Copy rows from one set of tables into another.
+
+        `null_values` maps old table names to the value that replaces `NULL`.
+        """
+
+        if null_values is None:
+            null_values = {}
 
         # Extract the "old" table version suffix
         tables = await self._get_table_versions()
@@ -1071,6 +1081,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 async for row in cursor:
                     placeholders = ",".join("?" * len(row))
 
+                    if old_table in null_values:
+                        null_value = null_values[old_table]
+                        row = tuple(null_value if v is None else v for v in row)
+
                     try:
                         await self.execute(
                             f"INSERT INTO {new_table} VALUES ({placeholders})", row
@@ -1146,6 +1160,7 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                 "node_descriptors": None,
             },
             errors="warn",
+            null_values={"endpoints": MISSING},
         )
 
     async def _migrate_to_v6(self):
-- 
2.43.0


From a4653bd3a20ebfb7172f695fe318d568635a98e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:59 +0000
Subject: [PATCH 088/100] fix: upgrade databases with node descriptors of
 removed devices

---
 zigpy/appdb.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 4f4b9ce..20ebc4d 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -1112,11 +1112,17 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     node_desc, rest = zdo_t.NodeDescriptor.deserialize(value)
                     assert not rest
 
-                    await self.execute(
-                        "INSERT INTO node_descriptors_v4"
-                        " VALUES (?,?,?,?,?,?,?,?,?,?,?,?,?,?)",
-                        (dev_ieee, *node_desc.as_tuple()),
-                    )
+                    try:
+                        await self.execute(
+                            "INSERT INTO node_descriptors_v4"
+                            " VALUES (?,?,?,?,?,?,?,?,?,?,?,?,?,?)",
+                            (dev_ieee, *node_desc.as_tuple()),
+                        )
+                    except sqlite3.IntegrityError as e:
+                        # The device is not known anymore
+                        LOGGER.warning(
+                            "Failed to migrate node descriptor of %s: %s", dev_ieee, e
+                        )
 
         # The `neighbors` table was added in v3 but the version number was not
         # incremented. It may not exist.
-- 
2.43.0


From 5aab95681b08ccc425159cba5d71f251fef62864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 089/100] fix: roll back an interrupted database upgrade

---
 zigpy/appdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index 20ebc4d..c5f4dba 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -161,7 +161,7 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         try:
             await listener.initialize_tables()
-        except Exception:  # noqa: BLE001
+        except (Exception, asyncio.CancelledError):
             await listener.shutdown()
             raise
 
@@ -945,7 +945,7 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
 
         try:
             yield
-        except Exception:  # noqa: BLE001
+        except (Exception, asyncio.CancelledError):
             await self.execute("ROLLBACK")
             raise
         else:
-- 
2.43.0


From 700be0bc7498c62dfd54c78a4b09e3115ac3020e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:49 +0000
Subject: [PATCH 090/100] fix: answer manufacturer-specific commands with their
 manufacturer code

---
 zigpy/zcl/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index 1728b4f..edabcba 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -544,7 +544,11 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                     value=attr_read_func(),
                 )
 
-            self.create_catching_task(self.read_attributes_rsp(records, tsn=hdr.tsn))
+            self.create_catching_task(
+                self.read_attributes_rsp(
+                    records, manufacturer=hdr.manufacturer, tsn=hdr.tsn
+                )
+            )
 
     def read_attributes_raw(self, attributes, manufacturer=None, **kwargs):
         attributes = [t.uint16_t(a) for a in attributes]
@@ -1001,6 +1005,7 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 foundation.GeneralCommand.Default_Response,
                 hdr.command_id,
                 status,
+                manufacturer=hdr.manufacturer,
                 tsn=hdr.tsn,
                 priority=t.PacketPriority.LOW,
             )
-- 
2.43.0


From fc3d6deeb7cf575db3cb901d384425ea87d4c044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:43 +0000
Subject: [PATCH 091/100] fix: let the side of a cluster that a frame is meant
 for answer it

---
 zigpy/device.py   | 7 +++++++
 zigpy/endpoint.py | 7 ++++++-
 2 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index ac8e8d4..75a6c43 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -490,12 +490,14 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
         # Parse the ZCL/ZDO header first
         data = packet.data.serialize()
+        direction = None
 
         try:
             if packet.dst_ep == zdo.ZDO_ENDPOINT:
                 hdr, _ = zdo_t.ZDOHeader.deserialize(packet.cluster_id, data)
             else:
                 hdr, _ = foundation.ZCLHeader.deserialize(data)
+                direction = hdr.direction
         except ValueError:
             self.debug("Failed to parse header of packet %r", packet, exc_info=True)
             return
@@ -564,6 +566,11 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             ):
                 break
 
+        # Both sides of a cluster can exist on an endpoint: the direction of the frame (not
+        # the one of the command's definition) tells which one of them sent it
+        if direction is not None:
+            hdr.frame_control.direction = direction
+
         # Finally, pass it off to the endpoint message handler. This will be removed.
         endpoint.handle_message(
             packet.profile_id,
diff --git a/zigpy/endpoint.py b/zigpy/endpoint.py
index b989879..084beab 100644
--- a/zigpy/endpoint.py
+++ b/zigpy/endpoint.py
@@ -15,6 +15,7 @@ import zigpy.zcl
 from zigpy.zcl.foundation import (
     GENERAL_COMMANDS,
     CommandSchema,
+    Direction,
     GeneralCommand,
     Status as ZCLStatus,
     ZCLHeader,
@@ -248,7 +249,11 @@ class Endpoint(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         *,
         dst_addressing: AddressingMode | None = None,
     ) -> None:
-        if cluster in self.in_clusters:
+        if cluster in self.in_clusters and not (
+            # If both sides of the cluster exist, the client is the one sending to servers
+            cluster in self.out_clusters
+            and hdr.direction == Direction.Client_to_Server
+        ):
             handler = self.in_clusters[cluster].handle_message
         elif cluster in self.out_clusters:
             handler = self.out_clusters[cluster].handle_message
-- 
2.43.0


From d83a1c12612c96f9c6b55f67c6d660711ffc66ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:03 +0000
Subject: [PATCH 092/100] fix: do not respond to multicasts and broadcasts with
 default responses

---
 zigpy/zcl/__init__.py          | 5 ++++-
 zigpy/zcl/clusters/security.py | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/zigpy/zcl/__init__.py b/zigpy/zcl/__init__.py
index edabcba..d483ab5 100644
--- a/zigpy/zcl/__init__.py
+++ b/zigpy/zcl/__init__.py
@@ -511,7 +511,10 @@ class Cluster(util.ListenableMixin, util.CatchingTaskMixin):
                 value = self._normalize_attribute(attr.attrid, attr.value.value)
                 self._update_attribute(attr.attrid, value)
 
-            if not hdr.frame_control.disable_default_response:
+            # Only unicasts are responded to
+            if not hdr.frame_control.disable_default_response and (
+                dst_addressing not in (t.AddrMode.Group, t.AddrMode.Broadcast)
+            ):
                 self.send_default_rsp(
                     hdr,
                     foundation.Status.SUCCESS,
diff --git a/zigpy/zcl/clusters/security.py b/zigpy/zcl/clusters/security.py
index ed7a09d..59cb380 100644
--- a/zigpy/zcl/clusters/security.py
+++ b/zigpy/zcl/clusters/security.py
@@ -152,6 +152,7 @@ class IasZone(Cluster):
             hdr.command_id == self.commands_by_name["enroll_response"].id
             and self.is_server
             and not hdr.frame_control.disable_default_response
+            and dst_addressing not in (t.AddrMode.Group, t.AddrMode.Broadcast)
         ):
             hdr.frame_control.is_reply = False  # this is a client -> server cmd
             self.send_default_rsp(hdr, foundation.Status.SUCCESS)
-- 
2.43.0


From 7d9a7545f31de920062afe84018a1c7d0d71450d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:00 +0000
Subject: [PATCH 093/100] fix: take manufacturer and model from the stored
 endpoints like the interview does

---
 zigpy/appdb.py | 33 +++++++++++++++++++--------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index c5f4dba..e92cf3c 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -727,6 +727,7 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         )
 
         for device in self._application.devices.values():
+            self._load_model_info(device)
             device = zigpy.quirks.get_device(device)
             self._application.devices[device.ieee] = device
 
@@ -799,20 +800,24 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
                     value,
                 )
 
-                # Populate the device's manufacturer and model attributes. They are not
-                # replaced: the first endpoint to provide them or a quirk decides.
-                if (
-                    cluster_id == Basic.cluster_id
-                    and attr_id == Basic.AttributeDefs.manufacturer.id
-                    and dev.manufacturer is None
-                ):
-                    dev.manufacturer = decode_str_attribute(value)
-                elif (
-                    cluster_id == Basic.cluster_id
-                    and attr_id == Basic.AttributeDefs.model.id
-                    and dev.model is None
-                ):
-                    dev.model = decode_str_attribute(value)
+    def _load_model_info(self, device: zigpy.typing.DeviceType) -> None:
+        """Populate the manufacturer and model like the interview of the device did."""
+        for ep in device.non_zdo_endpoints:
+            if device.manufacturer is not None and device.model is not None:
+                break
+
+            if Basic.cluster_id not in ep.in_clusters:
+                continue
+
+            cache = ep.in_clusters[Basic.cluster_id]._attr_cache
+
+            if Basic.AttributeDefs.manufacturer.id in cache:
+                device.manufacturer = decode_str_attribute(
+                    cache[Basic.AttributeDefs.manufacturer.id]
+                )
+
+            if Basic.AttributeDefs.model.id in cache:
+                device.model = decode_str_attribute(cache[Basic.AttributeDefs.model.id])
 
     async def _load_unsupported_attributes(self) -> None:
         """Load unsuppoted attributes."""
-- 
2.43.0


From 518755ad1e4fbc18fe20968b9960b7d50e6c86bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:59 +0000
Subject: [PATCH 094/100] fix: do not bring back routes of a device that was
 unknown when they were scanned

---
 zigpy/appdb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/zigpy/appdb.py b/zigpy/appdb.py
index e92cf3c..ae3d4ae 100644
--- a/zigpy/appdb.py
+++ b/zigpy/appdb.py
@@ -396,6 +396,10 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         self.enqueue("_routes_updated", ieee, routes)
 
     async def _routes_updated(self, ieee: t.EUI64, routes: list[zdo_t.Route]) -> None:
+        await self._save_routes(ieee, routes)
+        await self._db.commit()
+
+    async def _save_routes(self, ieee: t.EUI64, routes: list[zdo_t.Route]) -> None:
         await self.execute(f"DELETE FROM routes{DB_V} WHERE device_ieee = ?", [ieee])
 
         rows = [(ieee, *route.as_tuple()) for route in routes]
@@ -403,7 +407,6 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         await self._db.executemany(
             f"INSERT INTO routes{DB_V} VALUES (?,?,?,?,?,?,?,?)", rows
         )
-        await self._db.commit()
 
     def group_added(self, group: zigpy.group.Group) -> None:
         """Group is added."""
@@ -505,6 +508,8 @@ class PersistingListener(zigpy.util.CatchingTaskMixin):
         if device.ieee in topology.neighbors:
             await self._save_neighbors(device.ieee, topology.neighbors[device.ieee])
 
+        await self._save_routes(device.ieee, topology.routes.get(device.ieee, []))
+
         if isinstance(device, zigpy.quirks.BaseCustomDevice):
             await self._db.commit()
             return
-- 
2.43.0


From c844e64a759e3584b7969121b6535291bf0f53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:57 +0000
Subject: [PATCH 095/100] fix: let only the matching reply answer a ZDO request

---
 zigpy/device.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/zigpy/device.py b/zigpy/device.py
index 75a6c43..7ef072b 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -91,6 +91,7 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         self._model: str | None = None
         self.node_desc: zdo_t.NodeDescriptor | None = None
         self._pending: zigpy.util.Requests[t.uint8_t] = zigpy.util.Requests()
+        self._pending_zdo_replies: dict[t.uint8_t, int] = {}
         self._relays: t.Relays | None = None
         self._skip_configuration: bool = False
         self._send_sequence: int = 0
@@ -392,6 +393,13 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
 
             # Only create a pending request if we are expecting a reply
             with self._pending.new(sequence) as req:
+                if dst_ep == zdo.ZDO_ENDPOINT:
+                    # ZDO replies carry nothing but the TSN of the request, their
+                    # cluster has to tell what they are the reply to
+                    self._pending_zdo_replies[sequence] = cluster | 0x8000
+                else:
+                    self._pending_zdo_replies.pop(sequence, None)
+
                 await send_request()
 
                 async with asyncio_timeout(timeout):
@@ -524,8 +532,10 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
         # Resolve the future if this is a response to a request
         if hdr.tsn in self._pending and (
             hdr.direction == foundation.Direction.Server_to_Client
+            and hdr.tsn not in self._pending_zdo_replies
             if isinstance(hdr, foundation.ZCLHeader)
             else hdr.is_reply
+            and self._pending_zdo_replies.get(hdr.tsn) == hdr.command_id
         ):
             future = self._pending[hdr.tsn]
 
-- 
2.43.0


From bff87514326cb32c113191ee99083a94d7c4e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 096/100] fix: use the configured address of Salus, Sonoff,
 Inovelli and Third Reality firmware

---
 zigpy/ota/providers.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/zigpy/ota/providers.py b/zigpy/ota/providers.py
index 2db37e9..c1f99ee 100644
--- a/zigpy/ota/providers.py
+++ b/zigpy/ota/providers.py
@@ -390,6 +390,7 @@ class Ledvance(BaseOtaProvider):
 class Salus(BaseOtaProvider):
     NAME = "salus"
     MANUFACTURER_IDS = (4216, 43981)
+    DEFAULT_URL = "https://eu.salusconnect.io/demo/default/status/firmware"
 
     JSON_SCHEMA = json_schemas.SALUS_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -397,9 +398,7 @@ class Salus(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://eu.salusconnect.io/demo/default/status/firmware"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -424,6 +423,7 @@ class Salus(BaseOtaProvider):
 class Sonoff(BaseOtaProvider):
     NAME = "sonoff"
     MANUFACTURER_IDS = (4742,)
+    DEFAULT_URL = "https://zigbee-ota.sonoff.tech/releases/upgrade.json"
 
     JSON_SCHEMA = json_schemas.SONOFF_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -431,9 +431,7 @@ class Sonoff(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://zigbee-ota.sonoff.tech/releases/upgrade.json"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -454,6 +452,7 @@ class Sonoff(BaseOtaProvider):
 class Inovelli(BaseOtaProvider):
     NAME = "inovelli"
     MANUFACTURER_IDS = (4655,)
+    DEFAULT_URL = "https://files.inovelli.com/firmware/firmware-zha-v2.json"
 
     JSON_SCHEMA = json_schemas.INOVELLI_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -461,9 +460,7 @@ class Inovelli(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get(
-            "https://files.inovelli.com/firmware/firmware-zha-v2.json"
-        ) as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
@@ -490,6 +487,7 @@ class Inovelli(BaseOtaProvider):
 class ThirdReality(BaseOtaProvider):
     NAME = "thirdreality"
     MANUFACTURER_IDS = (4659, 4877, 5127)
+    DEFAULT_URL = "https://tr-zha.s3.amazonaws.com/firmware.json"
 
     JSON_SCHEMA = json_schemas.THIRD_REALITY_SCHEMA
     VOL_SCHEMA = zigpy.config.SCHEMA_OTA_PROVIDER_URL
@@ -497,7 +495,7 @@ class ThirdReality(BaseOtaProvider):
     async def _load_index(
         self, session: aiohttp.ClientSession
     ) -> typing.AsyncIterator[BaseOtaImageMetadata]:
-        async with session.get("https://tr-zha.s3.amazonaws.com/firmware.json") as rsp:
+        async with session.get(self.url) as rsp:
             fw_lst = await rsp.json()
 
         jsonschema.validate(fw_lst, self.JSON_SCHEMA)
-- 
2.43.0


From 97b5c1af753779ea5e8033d5398b810ba84e7605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:06 +0000
Subject: [PATCH 097/100] fix: replace the running OTA broadcast loop when it
 is started again

---
 zigpy/ota/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/zigpy/ota/__init__.py b/zigpy/ota/__init__.py
index fd0133b..b0bdbb6 100644
--- a/zigpy/ota/__init__.py
+++ b/zigpy/ota/__init__.py
@@ -251,6 +251,7 @@ class OTA:
 
     def start_periodic_broadcasts(self, initial_delay: float, interval: float) -> None:
         """Start the periodic OTA broadcasts."""
+        self.stop_periodic_broadcasts()
         self._broadcast_loop_task = asyncio.create_task(
             self.broadcast_loop(
                 initial_delay=initial_delay,
-- 
2.43.0


From 142c6885dcc8e9bdcd0ff3825d2719a0073a51f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 098/100] fix: unparsable answers about the version after a
 successful OTA update no longer fail it

---
 zigpy/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zigpy/device.py b/zigpy/device.py
index 7ef072b..71d4653 100644
--- a/zigpy/device.py
+++ b/zigpy/device.py
@@ -658,7 +658,7 @@ class Device(zigpy.util.LocalLogMixin, zigpy.util.ListenableMixin):
             await OTA_RETRY_DECORATOR(ota.read_attributes)(
                 [Ota.AttributeDefs.current_file_version.name]
             )
-        except (zigpy.exceptions.DeliveryError, asyncio.TimeoutError) as exc:
+        except (zigpy.exceptions.ZigbeeException, asyncio.TimeoutError) as exc:
             self.debug("Failed to read file version after OTA", exc_info=exc)
 
         return result
-- 
2.43.0


From eb6a9a62a3b771e56661e09d32fcaa3903a30e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:21 +0000
Subject: [PATCH 099/100] fix: ZDO packets with trailing data no longer raise
 before the coordinator is known

---
 zigpy/zdo/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/zigpy/zdo/__init__.py b/zigpy/zdo/__init__.py
index 8f8ab3e..b5c87b3 100644
--- a/zigpy/zdo/__init__.py
+++ b/zigpy/zdo/__init__.py
@@ -273,7 +273,8 @@ class ZDO(zigpy.util.CatchingTaskMixin, zigpy.util.ListenableMixin):
 
     def log(self, lvl, msg, *args, **kwargs):
         msg = "[0x%04x:zdo] " + msg
-        args = (self._device.nwk, *args)
+        # The coordinator's ZDO parses packets before its device is known
+        args = (self._device.nwk if self._device is not None else 0x0000, *args)
         return LOGGER.log(lvl, msg, *args, **kwargs)
 
     @property
-- 
2.43.0


From ea84d4705cb71e5315cfd3c1099cdcc4e677a498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:05 +0000
Subject: [PATCH 100/100] fix: close the coordinator to joining even if the
 startup broadcast fails

---
 zigpy/application.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zigpy/application.py b/zigpy/application.py
index ef93352..d417228 100644
--- a/zigpy/application.py
+++ b/zigpy/application.py
@@ -202,6 +202,9 @@ class ControllerApplication(zigpy.util.ListenableMixin, abc.ABC):
             LOGGER.warning("Failed to send startup broadcast: %s", e)
             LOGGER.warning(INTERFERENCE_MESSAGE)
 
+            # The coordinator itself can still be closed
+            await self.permit_ncp(0)
+
         if self.config[conf.CONF_STARTUP_ENERGY_SCAN]:
             # Each scan period is 15.36ms. Scan for at least 200ms (2^4 + 1 periods) to
             # pick up WiFi beacon frames.
-- 
2.43.0

