From 88a5c36445934a810b8c4693f6e04ff5a51c747f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 001/159] fix: association_ln ver0 imports its sibling module
 method relatively

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index e65cd29..9b4f304 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -5,7 +5,7 @@ from ...types import choices, cosemObjectInstanceId
 from ...types.implementations import arrays, enums, bitstrings, long_unsigneds, structs
 from ... import pdu_enums as pdu
 from . import mechanism_id, authentication_mechanism_name
-import method
+from . import method
 
 
 class AccessMode(cdt.Enum, elements=(0, 1, 2, 3)):
-- 
2.43.0


From bfd0001772b2e2394e208b966caccc591b29a7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 002/159] fix: restore the
 CosemAttributeDescriptorWithSelection type used by the interface classes

---
 src/DLMS_SPODES/types/useful_types.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index acd79bf..b22d398 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -929,6 +929,13 @@ class CosemAttributeDescriptor(Sequence):
     attribute_id: CosemObjectAttributeId
 
 
+@dataclass
+class CosemAttributeDescriptorWithSelection(Sequence):
+    """COSEMpdu_GB83 Cosem-Attribute-Descriptor-With-Selection"""
+    cosem_attribute_descriptor: CosemAttributeDescriptor
+    access_selection: SelectiveAccessDescriptor
+
+
 @dataclass
 class CosemMethodDescriptor(Sequence):
     class_id: CosemClassId
-- 
2.43.0


From 190391c9f219d3682f76bb9a0c06d663631ebab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 003/159] fix: SelectiveAccessDescriptor is built from its
 subclass ELEMENTS and encodes its parameters

---
 src/DLMS_SPODES/types/useful_types.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index b22d398..c4490c4 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -914,11 +914,24 @@ class CosemObjectMethodId(Integer8):
     """Cosem-Object-Method-Id"""
 
 
-@dataclass
+@dataclass(init=False)
 class SelectiveAccessDescriptor(Sequence):
     """COSEMpdu_GB83 Selective-Access-Descriptor"""
     access_selector: Unsigned8
-    access_parameters: Data
+    access_parameters: cdt.CommonDataType
+
+    def __init__(self,
+                 access_selector: Unsigned8 = None,
+                 access_parameters: cdt.CommonDataType = None):
+        """absent members are filled by default according with ELEMENTS of subclass"""
+        self.access_selector = self.ELEMENTS[0].TYPE() if access_selector is None else access_selector
+        if access_parameters is None:
+            access_parameters = self.ELEMENTS[1].TYPE.ELEMENTS[int(self.access_selector)].TYPE()
+        self.access_parameters = access_parameters
+
+    @property
+    def contents(self) -> bytes:
+        return self.access_selector.contents + self.access_parameters.encoding
 
 
 @dataclass
-- 
2.43.0


From 2e8bab39c2bcdfbfe21496eb086d853a503e320c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 004/159] fix: INTEGER.from_contents decodes all octets of the
 type and rejects a short value

---
 src/DLMS_SPODES/types/useful_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index c4490c4..a584270 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -631,7 +631,9 @@ class INTEGER(ABC):
 
     @classmethod
     def from_contents(cls, value: bytes):
-        return cls(int.from_bytes(value[0:1], "big", signed=cls.SIGNED))
+        if len(value) < cls.LENGTH:
+            raise ValueError(F"for {cls.__name__} got content length={len(value)}, expected at least {cls.LENGTH}")
+        return cls(int.from_bytes(value[:cls.LENGTH], "big", signed=cls.SIGNED))
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 316190d83ced7d7658066d93db9df45da92ab170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 005/159] fix: build CosemClassId from contents or int, its
 constructor accepts only int

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py           | 2 +-
 .../cosem_interface_classes/implementations/profile_generic.py  | 2 +-
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9f23150..32cb800 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1460,7 +1460,7 @@ class Collection:
             raise exc.NoObject(F"not found at least one DLMS Objects from collection with {values=}")
 
     def get_objects_by_class_id(self, value: int | CosemClassId) -> list[InterfaceClass]:
-        class_id = CosemClassId(value)
+        class_id = CosemClassId(int(value))
         return list(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values()))
 
     def get_objects_descriptions(self) -> list[tuple[cst.LogicalName, cdt.LongUnsigned, cdt.Unsigned]]:
diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index b0e657e..6c163a9 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -61,7 +61,7 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
         # rename CaptureObjectDefinition's and adding object if it absense in collection
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId.from_contents(el_value.class_id.contents),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             # self.collection.raise_before(obj, self)
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 233df99..7de5454 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -152,7 +152,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
             raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-            obj = self.collection.add_if_missing(class_id=ut.CosemClassId(el_value.class_id.contents),
+            obj = self.collection.add_if_missing(class_id=ut.CosemClassId.from_contents(el_value.class_id.contents),
                                                  version=None,
                                                  logical_name=el_value.logical_name)
             el_value.set_name(self.collection.get_name_and_type(el_value)[0][-1])
-- 
2.43.0


From 3614a4454585a1ca13a94611f5f662c66f0c83c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 006/159] fix: get_meth_descriptor passes the members of
 CosemMethodDescriptor separately

---
 .../cosem_interface_classes/cosem_interface_class.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 9db8c49..b5f8007 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -363,9 +363,9 @@ class COSEMInterfaceClasses(ABC):
         """ TODO """
         match value:
             case int() as index:
-                return ut.CosemMethodDescriptor((CosemClassId(self.CLASS_ID.contents),
-                                                 cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
-                                                 ut.CosemObjectMethodId(index)))
+                return ut.CosemMethodDescriptor(self.CLASS_ID,
+                                                cosemObjectInstanceId.CosemObjectInstanceId(self.logical_name.contents),
+                                                ut.CosemObjectMethodId(index))
 
     def __hash__(self):
         return hash(self.logical_name)
-- 
2.43.0


From 7f3af0af40e05e801328c8746331586e1d237066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 007/159] fix: useful_types.OctetString keeps the given octets
 instead of parsing a length from them twice

---
 src/DLMS_SPODES/types/useful_types.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index a584270..906370b 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -145,11 +145,7 @@ class OctetString(UT):
     value: bytes
 
     def __init__(self, value: bytes):
-        length, pdu = get_length_and_pdu(value)
-        if length <= len(pdu):
-            self.value = pdu[:length]
-        else:
-            raise ValueError(F"for {self.__class__.__name__} got {length=}, but content length only: {len(pdu)}")
+        self.value = value
 
     @classmethod
     def from_contents(cls, value: bytes) -> Self:
-- 
2.43.0


From fdbcd32a7e4ff4d9f6377ba92e13fe7941202354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 008/159] fix: size of OctetString6 is 6

---
 src/DLMS_SPODES/types/useful_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 906370b..ab68f26 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -203,7 +203,7 @@ class OctetString5(ConstSizeMixin, OctetString):
 class OctetString6(ConstSizeMixin, OctetString):
     @classmethod
     def SIZE(cls) -> int:
-        return 5
+        return 6
 
 
 class OctetString8(ConstSizeMixin, OctetString):
-- 
2.43.0


From 94b2653192653bd875bc4f3334708b420e46f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 009/159] fix: BOOLEAN.from_str matches a string, not a tuple
 of strings

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index ab68f26..6fe3a07 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -481,9 +481,9 @@ class BOOLEAN(UT):
     @classmethod
     def from_str(cls, value: str):
         match value:
-            case "0", "False":
+            case "0" | "False":
                 return FALSE
-            case "1", "True":
+            case "1" | "True":
                 return TRUE
             case _:
                 raise ValueError(F"for {cls.__name__}.from_str got unknown {value=}")
-- 
2.43.0


From de2ae58088e42675397ee8e15914d4ebf827880d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 010/159] fix: useful_types.Sequence encodes nested sequences
 and decodes its members from contents

---
 src/DLMS_SPODES/types/useful_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 6fe3a07..8eb82fa 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -71,7 +71,7 @@ class UT(ABC):
 
 
 def get_instance_and_context(meta: Type[UT], value: bytes) -> tuple[UT, bytes]:
-    instance = meta(value)
+    instance = meta.from_contents(value)
     return instance, value[len(instance.contents):]
 
 
@@ -85,8 +85,8 @@ class Sequence(UT, ABC):
     @property
     def contents(self):
         data = bytearray()
-        for it in astuple(self, tuple_factory=iter):
-            data.extend(it.contents)
+        for f in fields(self):
+            data.extend(getattr(self, f.name).contents)
         return bytes(data)
 
     @classmethod
-- 
2.43.0


From af15fcc6186f4eef5aa182dacdf96d66b758d6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:16 +0000
Subject: [PATCH 011/159] fix: useful_types.BitString keeps bits as int after
 change, so that it stays encodable

---
 src/DLMS_SPODES/types/useful_types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 8eb82fa..df1a59b 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -545,11 +545,11 @@ class BitString(UT):
         return ''.join(map(str, self.value))
 
     def __setitem__(self, key: int, value: int | bool):
-        self.value[key] = value
+        self.value[key] = int(value)
 
     def inverse(self, index: int):
         """ inverse one bit by index"""
-        self.value[index] = not self.value[index]
+        self.value[index] = int(not self.value[index])
 
     # def __lshift__(self, other):
     #     for i in range(other):
-- 
2.43.0


From 3f63457fa05a350390806ea65c3a586bce3dd87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:56 +0000
Subject: [PATCH 012/159] fix: get_attr_descriptor with selection passes
 descriptor and selection separately

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py  | 2 +-
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 9b4f304..d062d03 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -410,7 +410,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
         """ with selection for object_list. TODO: Copypast ProfileGeneric"""
         descriptor: ut.CosemAttributeDescriptor = super(AssociationLN, self).get_attr_descriptor(value)
         if value == 2 and with_selection:
-            return CosemAttributeDescriptorWithSelection((descriptor, self.object_list.selective_access))
+            return CosemAttributeDescriptorWithSelection(descriptor, self.object_list.selective_access)
         else:
             return descriptor
 
diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 7de5454..6d90b21 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -139,7 +139,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if value == BUFFER and with_selection:
             if self.attr_descriptor_with_selection is None:
                 self.__create_selective_access_descriptor()
-            return self.attr_descriptor_with_selection((descriptor.contents, self.buffer.selective_access.contents))
+            return self.attr_descriptor_with_selection(descriptor, self.buffer.selective_access)
         else:
             return descriptor
 
-- 
2.43.0


From d99e8ee49546795bf06011c0613714570f680e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 013/159] fix: Buffer.get_length takes the number of length
 octets from the low seven bits

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 474a5c6..99fc2f9 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -34,7 +34,7 @@ class Buffer(ByteBuffer):
         """ return common element length from buffer, with increasing by decoding according to 8.1.3 Length octets ITU-T Rec. X.690 (07/2002) """
         define_length = self.get_uint8()
         if define_length & 0b10000000:
-            return self.get_uint(define_length >> 1)
+            return self.get_uint(define_length & 0b01111111)
         else:
             return define_length
 
-- 
2.43.0


From dac9a3f28d72d1e0f52bf9c1a5801ef13d1df6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 014/159] fix: Buffer.put_len writes a long length at the
 current position and advances it

---
 src/DLMS_SPODES/types/cosem_pdu.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 99fc2f9..daf5eeb 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -47,17 +47,11 @@ class Buffer(ByteBuffer):
         if length < 0x80:
             return self.put_int(length)
         elif length < 0x1_00:
-            _length1.pack_into(self.buf, 0,
-                               0x81, length)
-            return 2
+            return self.write(_length1.pack(0x81, length))
         elif length < 0x1_00_00:
-            _length2.pack_into(self.buf, 0,
-                               0x82, length)
-            return 3
+            return self.write(_length2.pack(0x82, length))
         elif length < 0x1_00_00_00_00:
-            _length4.pack_into(self.buf, 0,
-                               0x84, length)
-            return 5
+            return self.write(_length4.pack(0x84, length))
         else:
             amount = int(log(length, 256)) + 1
             ret: int = self.put_int(0x80 + amount)
-- 
2.43.0


From 2db0d07a95de8f5e667db456f8a71e3803bf5adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 015/159] fix: ByteBuffer checks space from the position that
 is read or written

---
 src/DLMS_SPODES/types/byte_buffer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 6751b06..5d947ad 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -30,7 +30,7 @@ class ByteBuffer:
 
     def _check_space(self, space: int, pos: int = None):
         """check whether this buffer has enough `space` left for r/w op"""
-        if not pos:
+        if pos is None:
             pos = self.__pos
         if self.remaining(pos) < space:
             raise BufferError(F"{self} not enough more {space=}")
@@ -45,7 +45,7 @@ class ByteBuffer:
                  pos: int,
                  length: int = 1) -> memoryview:
         """return view to position"""
-        self._check_space(length)
+        self._check_space(length, pos)
         ret = self.buf[pos: pos + length]
         return ret
 
-- 
2.43.0


From c47dc4b67e0ec7ccc2c3c7ce58107c604ace021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 016/159] fix: ByteBuffer.set_pos accepts the end position,
 create_buf of an empty value needs it

---
 src/DLMS_SPODES/types/byte_buffer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/byte_buffer.py b/src/DLMS_SPODES/types/byte_buffer.py
index 5d947ad..8bc108f 100644
--- a/src/DLMS_SPODES/types/byte_buffer.py
+++ b/src/DLMS_SPODES/types/byte_buffer.py
@@ -114,7 +114,7 @@ class ByteBuffer:
 
     def set_pos(self, index):
         """set new position, with check"""
-        if 0 <= index < len(self):
+        if 0 <= index <= len(self):
             self.__pos = index
         else:
             raise IndexError(F"{self} can't set {index=}")
-- 
2.43.0


From e9d10986f1d4b5056be97129a7e6d65e6867a159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 017/159] fix: cosem_pdu INTEGER is compared by value

---
 src/DLMS_SPODES/types/cosem_pdu.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index daf5eeb..237b31c 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -273,7 +273,7 @@ class INTEGER(Simple, ABC):
 
     def __gt__(self, other: Self):
         match other:
-            case INTEGER(): return self.contents > other.value
+            case INTEGER(): return int(self) > int(other)
             case _:          raise TypeError(F'Compare type is {other.__class__}, expected Digital')
 
     def __hash__(self):
-- 
2.43.0


From 2ebf7e73bebdb895cc017fcc12a93218b0ff98d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:24 +0000
Subject: [PATCH 018/159] fix: cosem_pdu Choice and SEQUENCE OF return the item
 instead of raising it

---
 src/DLMS_SPODES/types/cosem_pdu.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 237b31c..a036ad8 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -632,7 +632,7 @@ class Choice(UT):
         return len(self.value) + 1
 
     def __getitem__(self, item):
-        raise self.value[item]
+        return self.value[item]
 
 
 class _SequenceOf(UT):
@@ -670,7 +670,7 @@ class _SequenceOf(UT):
         return decide_len(len(self.values)) + sum(map(len, self.values))
 
     def __getitem__(self, item):
-        raise self.values[item]
+        return self.values[item]
 
 
 def SEQUENCE_OF(value: Type[UT]) -> Type[_SequenceOf]:
-- 
2.43.0


From b7e0c40e44605cbb9459c663bfd0875eac537a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 019/159] fix: clear of Float, Boolean, Bcd and date/time types
 resets a value that is already initiated

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6b003b4..3959514 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -650,7 +650,7 @@ class Float(ABC):
         return str(self.decode())
 
     def clear(self):
-        self.contents = bytes(len(self))
+        self.__dict__['contents'] = bytes(len(self))
 
 
 class LIST(ABC):
@@ -731,7 +731,7 @@ class __DateTime(ABC):
         """"""
 
     def clear(self):
-        self.contents = self.DEFAULT
+        self.__dict__['contents'] = self.DEFAULT
 
 
 class __Date(ABC):
@@ -1451,7 +1451,7 @@ class Boolean(SimpleDataType):
         return False if self.contents == b'\x00' else True
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     def __int__(self):
         return 0 if self.contents == b'\x00' else 1
@@ -1718,7 +1718,7 @@ class Bcd(SimpleDataType):
         return self.TAG + self.contents
 
     def clear(self):
-        self.contents = b'\x00'
+        self.__dict__['contents'] = b'\x00'
 
     @property
     def contents_length(self) -> int: return 1
-- 
2.43.0


From 7d96cdc99ea70111b4f39619130abc8ff6253b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 020/159] fix: BitString built from bytearray keeps the
 contents

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 3959514..2145fbf 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1470,7 +1470,7 @@ class BitString(SimpleDataType):
                 self.contents = new_instance.contents
                 self.__length = len(new_instance)
             case bytes():                               self.contents = self.from_bytes(value)
-            case bytearray():                           self.from_bytearray(value)
+            case bytearray():                           self.contents = self.from_bytearray(value)
             case str():                                 self.contents = self.from_str(value)
             case int():                                 self.contents = self.from_int(value)
             case list():                                self.contents = self.from_list(value)
-- 
2.43.0


From 8f74fb3f4148d1fcc7f81ccbe60c7ecd50e1ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 021/159] fix: default Bcd has contents

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 2145fbf..7f61dcd 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1696,7 +1696,7 @@ class Bcd(SimpleDataType):
 
     def __init__(self, value: bytes | bytearray | str | int | Self = None):
         match value:  # TODO: replace priority case
-            case None: bytes(self.contents_length)
+            case None:                                                       self.contents = bytes(self.contents_length)
             case bytes():                                                    self.contents = self.from_bytes(value)
             case bytearray():                                                self.contents = bytes(value)
             case str():                                                      self.contents = self.from_str(value)
-- 
2.43.0


From 18da2d89e7058db230c2efce0d5f5e44072483ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 022/159] fix: Array.set keeps the old elements when the new
 value is rejected

---
 src/DLMS_SPODES/types/common_data_types.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7f61dcd..7b8db44 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1140,16 +1140,21 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
-        self.clear()
         if hasattr(self, 'cb_preset'):
             self.cb_preset(value)
         new_array = Array(value, type_=self.TYPE)
+        old_values = list(self.values)
+        self.clear()
         if self.TYPE is None and len(new_array) != 0:
             self.set_type(new_array[0].__class__)
         else:
             """TYPE already initiated"""
-        for el in new_array:
-            self.append(self.TYPE(el))
+        try:
+            for el in new_array:
+                self.append(self.TYPE(el))
+        except Exception:
+            self.values[:] = old_values
+            raise
         if hasattr(self, 'cb_post_set'):
             self.cb_post_set()
 
-- 
2.43.0


From be168b1f331a72fbf6726654a8cd18140a84c324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 023/159] fix: DateTime deviation is a signed number of minutes
 -720..720

---
 src/DLMS_SPODES/types/common_data_types.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7b8db44..7f287ba 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2030,7 +2030,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
             match dev:
                 case '':  return b'\x80\x00'
                 case '-': return b'\x00\x00'
-                case _ if dev.isdigit() and -720 <= int(dev) <= 720:   return pack('>H', int(dev))
+                case _ if dev.removeprefix('-').isdigit() and -720 <= int(dev) <= 720:   return pack('>h', int(dev))
                 case _:           raise ValueError
 
         match value.split(sep=' ', maxsplit=2):
@@ -2043,9 +2043,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def from_datetime(self, value: datetime.datetime) -> bytes:
         """ convert from build to DLMS datetime, weekday not set for uniquely datetime """
         match value.utcoffset():
-            case None: deviation = 0x8000
-            case _:    deviation = value.utcoffset().seconds // 60
-        return pack('>HBBBBBBBH',
+            case None: deviation = -0x8000
+            case _:    deviation = value.utcoffset() // datetime.timedelta(minutes=1)
+        return pack('>HBBBBBBBh',
                     value.year,
                     value.month,
                     value.day,
@@ -2079,7 +2079,7 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
     def decode(self) -> datetime.datetime:
         year_highbyte, year_lowbyte, month, day_of_month, _, hour, minute, second, hundredths, deviation_highbyte, deviation_lowbyte, _ = self.contents
         year = year_highbyte*256+year_lowbyte
-        deviation = deviation_highbyte*256 + deviation_lowbyte
+        deviation = int.from_bytes((deviation_highbyte, deviation_lowbyte), 'big', signed=True)
         return datetime.datetime(year=year if year != 0xffff else datetime.MINYEAR,
                                  month=month if month not in {0xff, 0xfe, 0xfd} else 1,
                                  day=day_of_month if day_of_month not in {0xff, 0xfe, 0xfd} else 1,
@@ -2087,15 +2087,15 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
                                  minute=minute if minute != 0xff else 0,
                                  second=second if second != 0xff else 0,
                                  microsecond=hundredths*10000 if hundredths != 0xff else 0,
-                                 tzinfo=datetime.timezone.utc if deviation == 0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
+                                 tzinfo=datetime.timezone.utc if deviation == -0x8000 else datetime.timezone(datetime.timedelta(minutes=deviation)))
 
     @property
     def time_zone(self) -> datetime.timezone | None:
         """ Return timezone from deviation """
-        deviation = self.contents[9]*256 + self.contents[10]
-        if deviation == 0x8000:
+        deviation = int.from_bytes(self.contents[9:11], 'big', signed=True)
+        if deviation == -0x8000:
             return None
-        elif -720 <= deviation >= 720:
+        elif -720 <= deviation <= 720:
             return datetime.timezone(datetime.timedelta(minutes=deviation))
         else:
             raise ValueError(F'Deviation must be from -720..720 got {deviation}')
-- 
2.43.0


From 85494e766eff9d81fae58c37fb8f8ece1a8ce827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 024/159] fix: weekday of a date without a certain day of month
 is not compared with the first day

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7f287ba..bdc50c1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -819,7 +819,7 @@ class __Date(ABC):
             value[4:5].replace(b'\xff', b'\x01')
         if datetime.date(year_highbyte * 256 + year_lowbyte, month, day_of_month).weekday() != \
                 day_of_week - 1 and value[4:] != b'\xff' and value[0:2] != b'\xff\xff' and \
-                value[2:3] not in b'\xfd\xfe\xff' and value[2:3] not in b'\xfd\xfe\xff':
+                value[2:3] not in b'\xfd\xfe\xff' and value[3:4] not in b'\xfd\xfe\xff':
             raise ValueError('Error init Data: week day wrong')
 
     @property
-- 
2.43.0


From 763277234d8cb05e853cee9a8c327dcf17350647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 025/159] fix: set_clock_status changes the last octet of
 DateTime

---
 src/DLMS_SPODES/types/common_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index bdc50c1..654cd50 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2065,7 +2065,9 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def set_clock_status(self, value: str | int):
         """ now only set value """
-        self.contents = self.contents[:12] + int(value).to_bytes(1, 'big')
+        contents = bytearray(self.contents)
+        contents[11] = int(value)
+        self.set(contents)
 
     def __str__(self):
         match unpack('>h', self.contents[9:11])[0]:
-- 
2.43.0


From 1ac6513b87df681b9598add1d59844d49c220382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 026/159] fix: scaled value is rounded to the nearest step
 instead of truncation

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 654cd50..04c100c 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -456,7 +456,7 @@ class Digital(ABC):
                 case ScalUnitType(): value *= 10**(-self.SCALER_UNIT.scaler.decode()+self.SCALER_UNIT.unit.get_scaler())
                 case None:           """ no scaler """
                 case _ as error:     raise ValueError(F'Unknown scaler_unit: {error}')
-            return int(value).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
+            return (int(value) if self.SCALER_UNIT is None else round(value)).to_bytes(self.LENGTH, 'big', signed=self.SIGNED)
         except OverflowError:
             raise ValueError(F'value {value} out of range')
 
-- 
2.43.0


From 01b7b032247d86005b82f0b4e31f9d031ad914b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 027/159] fix: integer from string does not pass through float

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 04c100c..e0660f5 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -461,7 +461,11 @@ class Digital(ABC):
             raise ValueError(F'value {value} out of range')
 
     def from_str(self, value: str) -> bytes:
-        return self.from_int(float(value))
+        try:
+            number = int(value)
+        except ValueError:
+            number = float(value)
+        return self.from_int(number)
 
     def clear(self):
         if self.DEFAULT:
-- 
2.43.0


From da357d558864ca8d4398b8595010b474149e2664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 028/159] fix: Float32/Float64 are coded by IEEE 60559 (bias,
 zero, subnormal)

---
 src/DLMS_SPODES/types/common_data_types.py | 23 ++--------------------
 1 file changed, 2 insertions(+), 21 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e0660f5..85a3670 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -619,30 +619,11 @@ class Float(ABC):
         """ Input float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7 """
         if 'inf' in str(value):
             raise OverflowError(F'Float overflow error')
-        hex_string = value.hex()
-        sign, mantissa_and_exponent = hex_string.split('0x')
-        sign = 1 << (len(self) * 8 - 1) if sign else 0
-        mantissa, exponent = mantissa_and_exponent.split('p')
-        integer, fraction = mantissa.split('.')
-        integer = int(integer, base=16)
-        exponent = (int(exponent) + 2 ** (len(self) - 1) - 1)
-        if exponent >= 2 ** self.exponent_wide:
-            raise OverflowError(F'Exponent overflow error')
-        exponent <<= self.fraction_wide if integer else 0
-        fraction_quartet_amount = ceil(self.fraction_wide / 4)
-        offset = fraction_quartet_amount*4 - self.fraction_wide
-        fraction = int(fraction[:fraction_quartet_amount], base=16) >> offset
-        return (sign + exponent + fraction).to_bytes(len(self), 'big')
+        return pack('>f' if len(self) == 4 else '>d', value)
 
     def decode(self) -> float:
         """  return the build in float type IEEE 60559"""
-        sign = self.contents[0] >> 7
-        exponent = (int.from_bytes(self.contents[:2], 'big') & 0x7fff) >> (15 - self.exponent_wide)
-        fraction = int.from_bytes(self.contents[1:], 'big') & (1 << self.fraction_wide)-1
-        ret = 2 ** (exponent - 2**(self.exponent_wide-1)+1) * (1 + fraction/(1 << self.fraction_wide))
-        if sign:
-            ret *= -1
-        return ret
+        return unpack('>f' if len(self) == 4 else '>d', self.contents)[0]
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-- 
2.43.0


From 10cbdcd2c546f72e91cf6d7f77d1a0eefecf2cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 029/159] fix: Float.validate_from does not instantiate the
 abstract class

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 85a3670..a35b125 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -629,7 +629,7 @@ class Float(ABC):
         # adding '0' for available set service symbols
         if value[-1] in '.-+exp':
             value += '0'
-        return SimpleDataType(self).validate_from(value, cursor_position)
+        return super().validate_from(value, cursor_position)
 
     def __str__(self):
         return str(self.decode())
-- 
2.43.0


From f121f937c1290909f9b9be4a317907dd17755d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 030/159] fix: Boolean rejects an unknown string

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a35b125..c447eed 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1429,6 +1429,8 @@ class Boolean(SimpleDataType):
         elif value == '1' or 'True'.startswith(value.title()) or 'Правда'.startswith(value.title()) or \
                 'Yes'.startswith(value.title()) or 'Да'.startswith(value.title()):
             return b'\x01'
+        else:
+            raise ValueError(F"can't create {self.TAG} with value {value}")
 
     def from_bool(self, value: bool) -> bytes:
         return b'\x01' if value else b'\x00'
-- 
2.43.0


From c59200a13eed35fd3da5ab4f6bda4f29e9db9480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 031/159] fix: A-XDR object identifier components above 14 bits
 are decoded whole

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index c447eed..0e4f65f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1365,7 +1365,7 @@ class AXDR(ABC):
                             values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
-                                tmp = (tmp & 0b0111_1111) << 7
+                                tmp <<= 7
                                 if values_in[0] >= 0b1000_0000:
                                     tmp += values_in.popleft() & 0b0111_1111
                                 else:
-- 
2.43.0


From ea4614677fe76588c7dbb637e4be25b017f86d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 032/159] fix: number of length octets is computed exactly

---
 src/DLMS_SPODES/types/common_data_types.py | 4 ++--
 src/DLMS_SPODES/types/cosem_pdu.py         | 6 +++---
 src/DLMS_SPODES/types/useful_types.py      | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0e4f65f..f0c2cd5 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -4,7 +4,7 @@ from struct import pack, unpack
 from abc import ABC, abstractmethod
 from typing import Type, Any, Callable, TypeAlias, Self
 from collections import deque
-from math import log, ceil
+from math import ceil
 import datetime
 import logging
 from ..config_parser import config
@@ -53,7 +53,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index a036ad8..8436123 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -17,7 +17,7 @@ def decide_len(length: int) -> int:
     elif length < 0x1_00_00_00_00:
         return 5
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return 1 + amount
 
 
@@ -53,7 +53,7 @@ class Buffer(ByteBuffer):
         elif length < 0x1_00_00_00_00:
             return self.write(_length4.pack(0x84, length))
         else:
-            amount = int(log(length, 256)) + 1
+            amount = (length.bit_length() + 7) // 8
             ret: int = self.put_int(0x80 + amount)
             length: bytes = length.to_bytes(amount, byteorder='big')
             return ret + self.write(length)
@@ -75,7 +75,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index df1a59b..f5a8416 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -27,7 +27,7 @@ def encode_length(length: int) -> bytes:
     elif length < 0x1_00_00_00_00:
         return pack(">BL", 0x84, length)
     else:
-        amount = int(log(length, 256)) + 1
+        amount = (length.bit_length() + 7) // 8
         return pack('B', 0x80 + amount) + length.to_bytes(amount, byteorder='big')
 
 
-- 
2.43.0


From 0649ad7902465a675aa15819838d7cac2832810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 033/159] fix: Array.pop without index removes the last element

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f0c2cd5..5c75c28 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -290,7 +290,7 @@ class __Array(ABC):
             self.values.insert(index, element)
 
     def pop(self, index: int | None = None) -> CommonDataType:
-        return self.values.pop(index)
+        return self.values.pop(-1 if index is None else index)
 
     def __len__(self):
         return len(self.values)
-- 
2.43.0


From 2b3d3e5586478b61ab5203c9596637c2cd1d1c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 034/159] fix: Enum of unknown type is represented as string

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 5c75c28..f0251c8 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1876,6 +1876,8 @@ class Enum(SimpleDataType, ABC):
             case _: super().__setattr__(key, value)
 
     def __str__(self):
+        if self.ELEMENTS is None:
+            return F"{self.__class__.__name__}({int(self)})"
         return self.ELEMENTS[self.contents]
 
     @property
-- 
2.43.0


From 3c6c21ddb125c8c87026a8633b9bbd208954bcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:35 +0000
Subject: [PATCH 035/159] fix: left nearest date search does not depend on
 parts of the point and skips absent days

---
 src/DLMS_SPODES/types/common_data_types.py | 25 +++++++++-------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f0251c8..e67ee7b 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -2093,36 +2093,31 @@ class DateTime(__DateTime, __Date, __Time, SimpleDataType):
 
     def get_left_nearest_date(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return date(datetime format) in left from point """
-        l_point: datetime.datetime = self.decode()
-        """ time in left from point """
-        months = range(point.month, 0, -1) if self.month is None else (self.month,)
-        """ months sequence from 12 to 1 with start from current month or self month """
-        days = range(point.day, 0, -1) if self.day is None else (self.day,)
-        """ days sequence from 31 to 1 with start from current day or self day """
+        tz = self.time_zone or datetime.timezone.utc
+        time = datetime.time(self.hour or 0, self.minute or 0, self.second or 0, (self.hundredths or 0)*10000, tz)
         for year in range(point.year, datetime.MINYEAR, -1) if self.year is None else (self.year, ):
-            l_point = l_point.replace(year=year)
-            for month in months:
-                l_point = l_point.replace(month=month)
-                for day in days:
-                    l_point = l_point.replace(day=day)
+            for month in range(12, 0, -1) if self.month is None else (self.month,):
+                for day in range(31, 0, -1) if self.day is None else (self.day,):
+                    try:
+                        l_point = datetime.datetime.combine(datetime.date(year, month, day), time)
+                    except ValueError:
+                        continue  # absent day of month
                     if l_point > point:
                         continue
                     elif self.weekday is not None and self.weekday != (l_point.weekday() + 1):
                         continue
                     else:
                         return l_point
-                days = range(31, 0, -1) if self.day is None else point.day,
-            months = range(12, 0, -1) if self.month is None else point.month,
         return None
 
     def get_left_nearest_datetime(self, point: datetime.datetime) -> datetime.datetime | None:
         """ search and return datetime in left from point """
         l_point: datetime.datetime = self.get_left_nearest_date(point)
         """ time in left from point """
-        is_this_day: bool = l_point.date() == point.date()
-        """ flag of points equaling """
         if l_point is None:
             return None
+        is_this_day: bool = l_point.date() == point.date()
+        """ flag of points equaling """
         for hour in range(point.hour if is_this_day else 23, -1, -1) if self.hour is None else (self.hour,):
             l_point = l_point.replace(hour=hour)
             for minute in range(point.minute if is_this_day and l_point.hour == point.hour else 59, -1, -1) if self.minute is None else (self.minute,):
-- 
2.43.0


From b9b266e3a9e6197f2c34ac8829013251c07d395b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 036/159] fix: value with incomplete length octets is rejected

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 src/DLMS_SPODES/types/useful_types.py      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e67ee7b..806d63d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -67,6 +67,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('Value is empty')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F"got {len(input_pdu) - 1} length octets, expected {content_start - 1}")
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index f5a8416..6d7f119 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -41,6 +41,8 @@ def get_length_and_pdu(input_pdu: bytes) -> tuple[int, bytes]:
         raise ValueError('in try getting length, got empty value')
     if bool(define_length & 0b10000000):
         content_start += define_length - 0x80
+        if len(input_pdu) < content_start:
+            raise ValueError(F"got {len(input_pdu) - 1} length octets, expected {content_start - 1}")
         length = int.from_bytes(input_pdu[1:content_start], 'big')
     else:
         length = define_length
-- 
2.43.0


From e4886d86aac1d31014786cff269ad1db06e34cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 037/159] fix: date/time in octet-string rejects other tags

---
 src/DLMS_SPODES/types/cosem_service_types.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index 3713f4e..a89bd22 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -95,8 +95,8 @@ class OctetStringDateTime(cdt.DateTime, tag=9, size=12):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date | datetime.time = b'\x09\x0c\x07\xe4\x01\x01\xff\xff\xff\xff\xff\x80\x00\xff'):
         match value:  # TODO: common for all OctetDateTimes
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == bytes((*self.TAG, len(self))): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[:1])} {value[1:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -109,8 +109,8 @@ class OctetStringDate(cdt.Date, tag=9, size=5):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.date = b'\x09\x05\x07\xe4\x01\x01\xff'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == bytes((*self.TAG, len(self))): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[:1])} {value[1:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
@@ -123,8 +123,8 @@ class OctetStringTime(cdt.Time, tag=9, size=4):
 
     def __init__(self, value: bytes | bytearray | str | int | datetime.datetime | datetime.time = b'\x09\x04\x00\x00\x00\x00'):
         match value:  # TODO: replace priority case
-            case bytes() if value[1] == len(self): super().__init__(self.TAG+value[2:])
-            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[0])} {value[1]}, expected {self.TAG} {len(self)}')
+            case bytes() if value[:2] == bytes((*self.TAG, len(self))): super().__init__(self.TAG+value[2:])
+            case bytes():                          raise ValueError(F'in create {self.__class__.__name__} got tag, size: {cdt.TAG(value[:1])} {value[1:2].hex()}, expected {self.TAG} {len(self)}')
             case _:                                super().__init__(value)
 
     @property
-- 
2.43.0


From 116dcf1aef31531c7d488e3633c0523a99bd3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 038/159] fix: season that is not begun yet is skipped in
 search of the current season

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index a4aea9a..f90fbe2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -200,7 +200,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         for season in self.season_profile_active:
             season: Season
             left_point = season.season_start.get_left_nearest_datetime(server_time)
-            if active_season[1] < left_point:
+            if left_point is not None and active_season[1] < left_point:
                 active_season = season, left_point
         if active_season[0] is None:
             raise AttributeError('Season Not found in Activity calendar object')
-- 
2.43.0


From 8f9611c720ccc95e02cc123dd64406f1c19501f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 039/159] fix: action that starts at midnight is found as the
 current one

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index f90fbe2..01971ee 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -241,7 +241,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         for day_profile_action in day.day_schedule:
             day_profile_action: DayProfileAction
             left_point = day_profile_action.start_time.get_left_nearest_time(server_time.time())
-            if left_point is not None and active[1] < left_point:
+            if left_point is not None and (active[0] is None or active[1] < left_point):
                 active = day_profile_action, left_point
         if active[0] is None:
             raise AttributeError('Action Not found in Activity calendar object')
-- 
2.43.0


From 4a527ef4736cfb51b358ce920b1b02712b2ccd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 040/159] fix: members of Data that share a representation keep
 their own tags

---
 src/DLMS_SPODES/types/cosem_pdu.py    | 30 +++++++++++++++++++++++----
 src/DLMS_SPODES/types/useful_types.py | 28 ++++++++++++++++++++++---
 2 files changed, 51 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 8436123..6ef1b34 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -417,6 +417,25 @@ class OctetString12(StringMixin, Simple):
         return 12
 
 
+class Bcd(Integer8):
+    """bcd of Data"""
+
+
+class Enum(Unsigned8):
+    """enum of Data"""
+
+
+class Time(OctetString4):
+    """time of Data"""
+
+
+class DontCare(NULL):
+    """dont-care of Data"""
+    @classmethod
+    def from_str(cls, value: str):
+        return cls.default()
+
+
 class Sequence(UT):
     """ TODO: """
     values: tuple[UT, ...]
@@ -598,6 +617,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -695,7 +717,7 @@ Data.ELEMENTS = (
         ChoiceElement("octet-string",          9, OctetString),
         # ChoiceElement(name="visible-string",        10, VisibleString),
         # ChoiceElement(name="utf8-string",           12, UTF8String),
-        ChoiceElement("bcd",                   13, Integer8),
+        ChoiceElement("bcd",                   13, Bcd),
         ChoiceElement("integer",               15, Integer8),
         ChoiceElement("long",                  16, Integer16),
         ChoiceElement("unsigned",              17, Unsigned8),
@@ -703,11 +725,11 @@ Data.ELEMENTS = (
         # ChoiceElement("compact-array",         19, ...),
         ChoiceElement("long64",                20, Integer64),
         ChoiceElement("long64-unsigned",       21, Unsigned64),
-        ChoiceElement("enum",                  22, Unsigned8),
+        ChoiceElement("enum",                  22, Enum),
         ChoiceElement("float32",               23, OctetString4),
         ChoiceElement("float64",               24, OctetString8),
         ChoiceElement("date-time",             25, OctetString12),
         ChoiceElement("date",                  26, OctetString5),
-        ChoiceElement("time",                  27, OctetString4),
-        ChoiceElement("dont-care",             255, NULL)
+        ChoiceElement("time",                  27, Time),
+        ChoiceElement("dont-care",             255, DontCare)
     )
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 6d7f119..23de168 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -349,6 +349,9 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
+        for el in cls.ELEMENTS:
+            if value is el.type:
+                return el
         for el in cls.ELEMENTS:
             if issubclass(value, el.type):
                 return el
@@ -714,6 +717,25 @@ class Unsigned64(INTEGER, UT):
     SIGNED = False
 
 
+class Bcd(Integer8):
+    """bcd of Data"""
+
+
+class Enum(Unsigned8):
+    """enum of Data"""
+
+
+class DontCare(Null):
+    """dont-care of Data"""
+    @classmethod
+    def from_contents(cls, value: bytes) -> Self:
+        return cls()
+
+    @classmethod
+    def from_str(cls, value: str) -> Self:
+        return cls()
+
+
 class AccessSelectionParameters(Unsigned8):
     """ Unsigned8(0..1) """
 
@@ -968,7 +990,7 @@ class Data(Choice):
         ChoiceElement(name="octet-string", tag=9, type=OctetString),
         ChoiceElement(name="visible-string",        tag=10, type=VisibleString),
         ChoiceElement(name="utf8-string",           tag=12, type=UTF8String),
-        ChoiceElement(name="bcd",                   tag=13, type=Integer8),
+        ChoiceElement(name="bcd",                   tag=13, type=Bcd),
         ChoiceElement(name="integer",               tag=15, type=Integer8),
         ChoiceElement(name="long",                  tag=16, type=Integer16),
         ChoiceElement(name="unsigned",              tag=17, type=Unsigned8),
@@ -976,11 +998,11 @@ class Data(Choice):
         # ChoiceElement(name="compact-array",         tag=19, type=...),
         ChoiceElement(name="long64",                tag=20, type=Integer64),
         ChoiceElement(name="long64-unsigned",       tag=21, type=Unsigned64),
-        ChoiceElement(name="enum",                  tag=22, type=Unsigned8),
+        ChoiceElement(name="enum",                  tag=22, type=Enum),
         # ChoiceElement(name="float32",               tag=23, IMPLICIT   OCTET STRING (SIZE(4)),
         # ChoiceElement(name="float64",               tag=24,  IMPLICIT   OCTET STRING (SIZE(8)),
         # ChoiceElement(name="date-time",             tag=25,  IMPLICIT   OCTET STRING (SIZE(12)),
         # ChoiceElement(name="date",                  tag=26,  IMPLICIT   OCTET STRING (SIZE(5)),
         # ChoiceElement(name="time",                  tag=27,  type=OCTET_STRING(4)),
-        ChoiceElement(name="dont-care",             tag=255, type=Null)
+        ChoiceElement(name="dont-care",             tag=255, type=DontCare)
     )
-- 
2.43.0


From 3df7748fd3b1e92e882c448374470eaf753dc3e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 041/159] fix: useful_types BitString and OPTIONAL are compared
 by value

---
 src/DLMS_SPODES/types/useful_types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 23de168..12c86ab 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -576,6 +576,9 @@ class BitString(UT):
         for i in range(len(self)):
             self.value[i] = 0
 
+    def __eq__(self, other):
+        return isinstance(other, BitString) and self.contents == other.contents
+
 
 class SequenceOptional(UT, ABC):
     """for used in SEQUENCE now"""
@@ -608,6 +611,9 @@ class SequenceOptional(UT, ABC):
     def __str__(self):
         return str(self.value)
 
+    def __eq__(self, other):
+        return isinstance(other, SequenceOptional) and self.contents == other.contents
+
     @classmethod
     def from_str(cls, value: str) -> Self:
         raise RuntimeError(F"Not implementation for {cls.__name__}")
-- 
2.43.0


From 7f430a16cc3d400d7960ee893ab93ecbb38273c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 042/159] fix: default Structure without declared elements is
 empty

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 806d63d..f901f62 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1176,6 +1176,8 @@ class Structure(ComplexDataType):
             case bytes():                  self.from_bytes(value)
             case tuple() | list():         self.from_sequence(value)
             case None:
+                if not hasattr(self, "ELEMENTS"):
+                    self.__dict__["ELEMENTS"] = tuple()
                 for el in self.ELEMENTS:
                     self.values.append(el.TYPE())
             case bytearray():              self.from_content(bytes(value))
-- 
2.43.0


From a2963720c6f85e4716e74e9a2068ec55cb5bf86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 043/159] fix: structure with type selector can be set as a
 whole

---
 src/DLMS_SPODES/types/choices.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/choices.py b/src/DLMS_SPODES/types/choices.py
index 43dc184..fc532b8 100644
--- a/src/DLMS_SPODES/types/choices.py
+++ b/src/DLMS_SPODES/types/choices.py
@@ -117,6 +117,9 @@ class StructureMixin:
         super(StructureMixin, self).__init__(value)
         self.values[0].register_cb_preset(raise_error)
 
+    def set(self, value: bytes | bytearray | tuple | list | None):
+        self.values[:] = self.__class__(value).values
+
     def from_sequence(self, sequence: tuple):
         if len(sequence) != len(self):
             raise ValueError(F'Struct {self.__class__.__name__} got length:{len(sequence)}, expected length:{len(self)}')
-- 
2.43.0


From 2df9a9f9d714c083c0ebf361d337870493b76a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 044/159] fix: octets absent in cp1251 are shown as '?' instead
 of UnicodeDecodeError

---
 src/DLMS_SPODES/types/common_data_types.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index f901f62..571404f 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1630,7 +1630,7 @@ class OctetString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i > 32 else 63)
-        return bytes(temp).decode(encoding)
+        return bytes(temp).decode(encoding, errors="replace").replace("\ufffd", "?")
 
     def __bytes__(self):
         return self.contents
@@ -1647,7 +1647,7 @@ class VisibleString(_String, SimpleDataType):
         return bytes(str(value), 'cp1251')
 
     def __str__(self):
-        return bytes([char if char >= 0x20 else 63 for char in self.contents]).decode(encoding='cp1251')
+        return self.decode()
 
     def __len__(self):
         return len(self.contents)
@@ -1657,7 +1657,7 @@ class VisibleString(_String, SimpleDataType):
         temp = list()
         for i in self.contents:
             temp.append(i if i >= 32 else 63)
-        return bytes(temp).decode(encoding)
+        return bytes(temp).decode(encoding, errors="replace").replace("\ufffd", "?")
 
     def to_str(self) -> str:
         return self.decode()
-- 
2.43.0


From 1bf3fae906bc4596bec597cd730240a65f65a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 045/159] fix: copy of a scaled number keeps its scaler and
 unit

---
 src/DLMS_SPODES/types/common_data_types.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 571404f..6919bbe 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -246,6 +246,9 @@ class SimpleDataType(CommonDataType, ABC):
     def _new_instance(self, value) -> Self:
         return self.__class__(value)
 
+    def copy(self) -> Self:
+        return self._new_instance(self.encoding)
+
     def set(self, value: Self | bytes | bytearray | str | int | bool | float | datetime.date | None):
         new_value = self._new_instance(value)
         if hasattr(self, 'cb_preset'):
-- 
2.43.0


From fd560bb3f94c3b17579b8788915c86844592a45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 046/159] fix: copy of an array keeps the type of its elements

---
 src/DLMS_SPODES/types/common_data_types.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 6919bbe..8226899 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1118,6 +1118,12 @@ class Array(__Array, ComplexDataType):
         """ get element by index """
         return self.values[item]
 
+    def copy(self) -> Self:
+        new = self.__class__(self.encoding)
+        if self.TYPE is not None:
+            new.__dict__["TYPE"] = self.TYPE
+        return new
+
     def get_type(self) -> Type[CommonDataType]:
         return self.TYPE
 
-- 
2.43.0


From 44dff2c555b42cf4c6856c4981de959da5efd38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 047/159] fix: Array.insert keeps elements of an unique array
 different

---
 src/DLMS_SPODES/types/common_data_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8226899..0273d22 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1124,6 +1124,11 @@ class Array(__Array, ComplexDataType):
             new.__dict__["TYPE"] = self.TYPE
         return new
 
+    def insert(self, index: int, element: CommonDataType):
+        if self.unique and element in self.values:
+            raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
+        super().insert(index, element)
+
     def get_type(self) -> Type[CommonDataType]:
         return self.TYPE
 
-- 
2.43.0


From 1a23bb2552d5d010565a3e7086df56af51f75bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 048/159] fix: Structure.set rejects a structure of other
 length or types before it changes anything

---
 src/DLMS_SPODES/types/common_data_types.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 0273d22..b963481 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1309,7 +1309,13 @@ class Structure(ComplexDataType):
         self.__dict__["NAME"] = value
 
     def set(self, value: bytes | bytearray | tuple | list | None):
-        for index, el_value in enumerate(self.get_types()(value)):
+        new = self.get_types()(value)
+        if len(new) != len(self):
+            raise ValueError(F"Struct {self.__class__.__name__} got length:{len(new)}, expected length:{len(self)}")
+        for old_el, new_el in zip(self.values, new):
+            if old_el.TAG != new_el.TAG:
+                raise ValueError(F"type got {new_el.TAG}, expected {old_el.TAG}")
+        for index, el_value in enumerate(new):
             self[index].set(el_value)
 
     @property
-- 
2.43.0


From c20f13c174ee4ae9055c90ce0ccf9f7dbb972dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:06 +0000
Subject: [PATCH 049/159] fix: Conformance of a wrong length is rejected

---
 src/DLMS_SPODES/types/implementations/bitstrings.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/implementations/bitstrings.py b/src/DLMS_SPODES/types/implementations/bitstrings.py
index e7ff596..3be7f5d 100644
--- a/src/DLMS_SPODES/types/implementations/bitstrings.py
+++ b/src/DLMS_SPODES/types/implementations/bitstrings.py
@@ -36,8 +36,8 @@ class Conformance(cdt.BitString):
 
     def __init__(self, value: bytes | bytearray | str | int | cdt.BitString = None):
         super(Conformance, self).__init__(value)
-        if self.ELEMENTS is not None and len(self) != len(self.ELEMENTS):
-            raise ValueError(F'For {self.__class__.__name__} get {len(self)} bits, expected {len(self.ELEMENTS)}')
+        if len(self.contents) * 8 != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(self.contents) * 8} bits, expected {len(self)}')
 
     def __len__(self):
         return len(self.ELEMENTS)
@@ -52,6 +52,8 @@ class Conformance(cdt.BitString):
             case _ as error:                            raise TypeError(F'Expected {self.NAME} type, got {cdt.get_common_data_type_from(error).NAME}')
 
     def from_str(self, value: str) -> bytes:
+        if len(value) != len(self):
+            raise ValueError(F'For {self.__class__.__name__} get {len(value)} bits, expected {len(self)}')
         value = value + '0' * ((8 - len(self)) % 8)
         list_ = [value[count:(count + 8)] for count in range(0, len(self), 8)]
         value = b''
-- 
2.43.0


From c5be09e242dcdbd2cf2a1df21517deac3b64bd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 050/159] fix: date/time with impossible weekday or hundredths
 is rejected

---
 src/DLMS_SPODES/types/common_data_types.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index b963481..8f4936d 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -803,6 +803,8 @@ class __Date(ABC):
     def check_date(value: bytes):
         if len(value) != 5:
             raise ValueError(F'In the Date type expected length 5, but got {len(value)}')
+        if value[4] != 0xff and not 1 <= value[4] <= 7:
+            raise ValueError(F'got weekday={value[4]}, must be: 1..7, ff')
         year_highbyte, year_lowbyte, month, day_of_month, day_of_week = \
             value[0:2].replace(b'\xff\xff', b'\x01\x00') + \
             value[2:4].replace(b'\xff', b'\x01').replace(b'\xfe', b'\x01').replace(b'\xfd', b'\x01') + \
@@ -969,7 +971,8 @@ class __Time(ABC):
             case _ as wrong_value:                    raise ValueError(F"got hundredths={wrong_value} from {self.TAG} contents, must be: 0..99, ff")
 
     def check_time(self):
-        datetime.time(*tuple(self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')))
+        hour, minute, second, hundredths = self.contents[0+self.__contents_offset: 4+self.__contents_offset].replace(b'\xff', b'\x00')
+        datetime.time(hour, minute, second, hundredths * 10_000)
 
     @property
     def strftime(self) -> str:
-- 
2.43.0


From d548123bed5f00f97031cf2de3a5a9c5909f4189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 051/159] fix: set_year accepts year 1, set_weekday rejects
 impossible weekday as the other setters do

---
 src/DLMS_SPODES/types/common_data_types.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 8f4936d..ddde357 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -763,7 +763,7 @@ class __Date(ABC):
 
     def set_year(self, value: int):
         """ set day """
-        if (9999 >= value > 1) or value == 0xffff:
+        if (9999 >= value >= 1) or value == 0xffff:
             contents = bytearray(self.contents)
             contents[:2] = value.to_bytes(2, 'big')
             self.set(contents)
@@ -794,6 +794,8 @@ class __Date(ABC):
             contents = bytearray(self.contents)
             contents[4] = value
             self.set(contents)
+        else:
+            raise ValueError(F'Weekday out of range, got {value}, expected 1..7, 255')
 
     @abstractmethod
     def decode(self) -> datetime.datetime:
-- 
2.43.0


From 84cb8f8d3855525b67b720d8ab9bd3a77a996bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 052/159] fix: contents of a wrong length are rejected by types
 of fixed length

---
 src/DLMS_SPODES/types/common_data_types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index ddde357..2e2ba30 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -444,6 +444,8 @@ class Digital(ABC):
 
     def validate(self):
         """ receiving contents validate. override it if need """
+        if len(self.contents) != self.LENGTH:
+            raise ValueError(F"Length of contents for {self.TAG} must be {self.LENGTH}, but got {len(self.contents)}")
         if isinstance(self.VALUE, int) and int(self) != self.VALUE:
             raise ValueError(F"for {self.TAG} got value: {int(self)}, expected {self.VALUE}")
         if isinstance(self.MIN, int) and self.MIN > int(self):
@@ -604,6 +606,8 @@ class Float(ABC):
             case float():                                                          self.contents = self.from_float(value)
             case Float():                                                          self.contents = value.contents
             case _:                                                                raise ValueError(F'Error create {self.TAG} with value {value}')
+        if len(self.contents) != len(self):
+            raise ValueError(F"Length of contents for {self.TAG} must be {len(self)}, but got {len(self.contents)}")
 
     def from_str(self, value: str) -> bytes:
         """ Input 1. float: <sign><integer>.<fraction>[e[-+]power] example: 1.0, -0.003, 1e+12, 4.5e-7
@@ -672,6 +676,8 @@ class __DateTime(ABC):
             case datetime.time():                                                      self.contents = self.from_time(value)
             case self.__class__():                                                     self.contents = value.contents
             case _:                                                                    raise ValueError(F"error create {self.TAG} with value {value}")
+        if len(self.contents) != len(self):
+            raise ValueError(F"length of contents for {self.TAG} must be {len(self)}, but got {len(self.contents)}")
 
     @property
     def encoding(self) -> bytes:
@@ -1433,6 +1439,8 @@ class Boolean(SimpleDataType):
             case bool():                                                     self.contents = self.from_bool(value)
             case Boolean():                                                  self.contents = value.contents
             case _:                                                          call_wrong_tag_in_value(value, self.TAG)
+        if len(self.contents) != 1:
+            raise ValueError(F"Length of contents for {self.TAG} must be 1, but got {len(self.contents)}")
 
     @property
     def encoding(self) -> bytes:
@@ -1724,6 +1732,8 @@ class Bcd(SimpleDataType):
             case int():                                                      self.contents = self.from_int(value)
             case Bcd():                                                      self.contents = value.contents
             case _:                                                          call_wrong_tag_in_value(value, self.TAG)
+        if len(self.contents) != self.contents_length:
+            raise ValueError(F"Length of contents for {self.TAG} must be {self.contents_length}, but got {len(self.contents)}")
 
     def from_bytes(self, encoding: bytes) -> bytes:
         """ Full encoding receiver: Tag+Length+Content """
@@ -1852,6 +1862,8 @@ class Enum(SimpleDataType, ABC):
             case int():                                                   self.contents = self.from_int(value)
             case self.__class__():                                        self.contents = value.contents
             case _:                                                       raise ValueError(F'Unknown type for {self.__class__.__name__} with value {value}<{value.__class__}>')
+        if len(self.contents) != 1:
+            raise ValueError(F'Length of contents for {self.__class__.__name__} must be 1, but got {len(self.contents)}')
         if self.ELEMENTS is not None:
             self.validation()
 
-- 
2.43.0


From 2301aa7bdfabba9e3996e21d98236829b445236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:27 +0000
Subject: [PATCH 053/159] fix: default config.toml of the package is found when
 the working directory has none

---
 src/DLMS_SPODES/config_parser.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/config_parser.py b/src/DLMS_SPODES/config_parser.py
index 6ef84dd..6f1401a 100644
--- a/src/DLMS_SPODES/config_parser.py
+++ b/src/DLMS_SPODES/config_parser.py
@@ -38,9 +38,8 @@ def get_values2(*args: str) -> tuple[str, int]:
 
 
 if not os.path.isfile(path := ".//config.toml"):
-    path = F"{os.path.dirname(__file__)}{path}"
-elif not os.path.isfile(path):
-    logger.warning("NOT FIND CONFIGURATION: <config.toml>")
+    logger.warning("NOT FIND CONFIGURATION: <config.toml>, used default")
+    path = os.path.join(os.path.dirname(__file__), "config.toml")
 with open(path, "rb") as f:
     config = tomllib.load(f)
     logger.info(F"Find configuration <config.toml> with path: {f}")
-- 
2.43.0


From bacfe38eac397af3f3b4efec8d5b18fe88f6ae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 054/159] fix: text of LLCSecret goes through VisibleString too

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 2e2ba30..012924b 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1680,7 +1680,7 @@ class VisibleString(_String, SimpleDataType):
         return bytes(str(value), 'cp1251')
 
     def __str__(self):
-        return self.decode()
+        return VisibleString.decode(self)
 
     def __len__(self):
         return len(self.contents)
-- 
2.43.0


From d6bf77c324ed3e94e1f8d0fc790d36e512cdb239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 055/159] fix: length of A-XDR object identifier is number of
 its octets

---
 src/DLMS_SPODES/types/common_data_types.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 012924b..9d51929 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1424,6 +1424,14 @@ class AXDR(ABC):
         else:
             return super(AXDR, self).contents
 
+    @property
+    def encoding(self) -> bytes:
+        if self.is_xdr:
+            contents = self.get_a_xdr()
+            return self.TAG + encode_length(len(contents)) + contents
+        else:
+            return super(AXDR, self).encoding
+
 
 class Boolean(SimpleDataType):
     """ boolean """
-- 
2.43.0


From 0f07013d7f8be21c4438908e93b401862ffbaf06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:50 +0000
Subject: [PATCH 056/159] fix: logical names of abstract objects

---
 src/DLMS_SPODES/obis/abstract_objects.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/DLMS_SPODES/obis/abstract_objects.py b/src/DLMS_SPODES/obis/abstract_objects.py
index c54e904..e7e5af9 100644
--- a/src/DLMS_SPODES/obis/abstract_objects.py
+++ b/src/DLMS_SPODES/obis/abstract_objects.py
@@ -1,17 +1,13 @@
 """DLMS UA 1000-1 Ed. 14. 7.4 Abstract objects (Value group A = 0)"""
-from struct import pack_into
 from ..types import cst
 
 
-_buf = bytearray(6)
-
-
 def BILLING_PERIOD_COUNTER(b: int = 0, f: int = 255):
-    return cst.LogicalName(bytes((0, b, 0, 1, 0, f)))
+    return cst.LogicalName(bytearray((0, b, 0, 1, 0, f)))
 
 
 def SPODES3_DISPLAY_MODE():
-    return cst.LogicalName(pack_into(">6B", _buf, 0, 0, 96, 4, 1, 255))
+    return cst.LogicalName(bytearray((0, 0, 96, 4, 1, 255)))
 
 
-LDN = cst.LogicalName(pack_into(">6B", _buf, 0, 0, 42, 0, 0, 255))
+LDN = cst.LogicalName(bytearray((0, 0, 42, 0, 0, 255)))
-- 
2.43.0


From f82728bf8672d8d52c3c796fc1b639873a068fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:05 +0000
Subject: [PATCH 057/159] fix: not complete A-XDR object identifier is rejected

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 9d51929..7ddba58 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1409,6 +1409,8 @@ class AXDR(ABC):
                                     i = next(values_index)
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
+                            if None in values or xdr[-1] >= 0b1000_0000:
+                                raise ValueError(F"not complete object identifier for {self.__class__.__name__}: {xdr.hex()}")
                             self.__dict__['values'] = tuple(values)
                         else:
                             raise ValueError(F"expected {self.TAG} type, got {TAG(encoding[:1])}")
-- 
2.43.0


From 772d729ab7e1bdd4cf4a3d8eed66dac4e6015132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:08 +0000
Subject: [PATCH 058/159] fix: default of an Enum without declared elements is
 0

---
 src/DLMS_SPODES/types/common_data_types.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 7ddba58..934a099 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1895,6 +1895,8 @@ class Enum(SimpleDataType, ABC):
 
     def from_none(self):
         """first key value"""
+        if self.ELEMENTS is None:
+            return b"\x00"
         return next(iter(self.ELEMENTS))
 
     def validation(self):
-- 
2.43.0


From 92499d7a91e6c647c47b11b0c8457427fa0ffc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 059/159] fix: hdlc address out of 0..16383 is rejected instead
 of being cut

---
 src/DLMS_SPODES/hdlc/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index aa5e1a2..4eb15f5 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -114,6 +114,9 @@ class Address:
             else:
                 self.__content = content
         else:
+            for it in (upper_address, lower_address):
+                if it is not None and not 0 <= it <= 0x3fff:
+                    raise ValueError(F"got {lower_address=}, {upper_address=}, expected 0..16383")
             # calculate length
             if not lower_address:
                 if (upper_address & self.__MASK) == 0:
-- 
2.43.0


From b933f0261d639fa43cbc4d3c7a25722f128f55aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 060/159] fix: hdlc frame longer than its 11 bit length field
 is rejected

---
 src/DLMS_SPODES/hdlc/frame.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index 4eb15f5..dd80a28 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -38,7 +38,7 @@ class Format:
                 if self.type != 0xA:
                     raise FormatDataError(F'Frame format type not according HDLC Type 3, must be 0xA, got {hex(self.type)}')
         else:
-            if length.bit_length() <= 13:
+            if length.bit_length() <= 11:
                 value = length
                 if is_segmentation:
                     value |= 0b1010_1_00000000000
@@ -46,7 +46,7 @@ class Format:
                     value |= 0b1010_0_00000000000
                 self.__content = pack('>H', value)
             else:
-                raise ValueError(F'Frame length overflow, max be 2048, got {length}')
+                raise ValueError(F'Frame length overflow, max be 2047, got {length}')
 
     @property
     def content(self) -> bytes:
-- 
2.43.0


From 05511135cd1870466209036c7303ec808e224c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 061/159] fix: hdlc frame with too short header is skipped as
 any wrong frame

---
 src/DLMS_SPODES/hdlc/frame.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/frame.py b/src/DLMS_SPODES/hdlc/frame.py
index dd80a28..acb7b67 100644
--- a/src/DLMS_SPODES/hdlc/frame.py
+++ b/src/DLMS_SPODES/hdlc/frame.py
@@ -155,6 +155,8 @@ class Address:
     @classmethod
     def from_frame(cls, value: bytearray) -> Address:
         for it in (0, 1, 3):
+            if it >= len(value):
+                raise ValueError('HDLC address is not complete')
             if value[it] % 2 == 1:
                 match it:
                     case 0: new = cls(bytes(value[:1])); break
@@ -550,6 +552,8 @@ class Control(IntFlag):
 
     @classmethod
     def from_frame(cls, value: bytearray) -> Control:
+        if len(value) == 0:
+            raise ValueError('HDLC control is absent')
         return Control(value.pop(0))
 
     @property
-- 
2.43.0


From 06e678fa09e3998d6c403aecf9ca7fe425e09b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 062/159] fix: SNRM with all four parameters fits its buffer

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index d4b99b6..cc6239a 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -4,7 +4,7 @@ from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
 
-MAX_CONTENT_LENGTH = 0x16
+MAX_CONTENT_LENGTH = 0x17
 FORMAT_IDENTIFIER = 0x81
 GROUP_IDENTIFIER = 0x80
 MAX_INFO_DEFAULT = 128
-- 
2.43.0


From 6d5db9e8c96f0ba27f963dc30cc9c21bd86d57fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 063/159] fix: SNRM offers the receive window, not the transmit
 window twice

---
 src/DLMS_SPODES/hdlc/negotiation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index cc6239a..e05215e 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -120,7 +120,7 @@ class Negotiation(Info):
         if self.window_transmit != WINDOW_DEFAULT:
             window_pack(self.WINDOW_SIZE_TRANSMIT, self.window_transmit)
         if self.window_receive != WINDOW_DEFAULT:
-            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_transmit)
+            window_pack(self.WINDOW_SIZE_RECEIVE, self.window_receive)
         if offset == 3:
             offset = 0
         else:
-- 
2.43.0


From f214d6fdf075b91b3d2e0af8b7c29858756bd0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 064/159] fix: UA with incomplete parameter is rejected

---
 src/DLMS_SPODES/hdlc/negotiation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index e05215e..43f96c8 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -30,6 +30,8 @@ class Negotiation(Info):
         """set from UA info"""
         def get_max_information_field(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) < 1 + data_len:
+                raise ValueError(F"got length of parameter {len(data) - 1}, expected {data_len}")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_MAX_INFO_FIELD_LENGTH <= ret <= MAX_MAX_INFO_FIELD_LENGTH:
                 return ret, memoryview(data[1 + data_len:])
@@ -38,6 +40,8 @@ class Negotiation(Info):
 
         def get_window_size(data: memoryview) -> tuple[int, memoryview]:
             data_len = data[0]
+            if len(data) < 1 + data_len:
+                raise ValueError(F"got length of parameter {len(data) - 1}, expected {data_len}")
             ret = int.from_bytes(data[1:1 + data_len], "big")
             if MIN_WINDOW_SIZE <= ret <= MAX_WINDOW_SIZE:
                 return ret, memoryview(data[1 + data_len:])
-- 
2.43.0


From 2863f525845ea78ee3c8e0b31a326619cc233c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 065/159] fix: SNRM follows the current negotiation parameters

---
 src/DLMS_SPODES/hdlc/negotiation.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/hdlc/negotiation.py b/src/DLMS_SPODES/hdlc/negotiation.py
index 43f96c8..0df5861 100644
--- a/src/DLMS_SPODES/hdlc/negotiation.py
+++ b/src/DLMS_SPODES/hdlc/negotiation.py
@@ -1,5 +1,4 @@
 from dataclasses import dataclass
-from functools import cached_property
 from ..hdlc.frame import Info
 from struct import pack_into, unpack_from
 from typing import ClassVar
@@ -76,12 +75,10 @@ class Negotiation(Info):
                                 case wrong_tag:
                                     raise ValueError(F"got {wrong_tag=}, expected ")
             self.max_info_receive, self.max_info_transmit, self.window_receive, self.window_transmit = i_rx, i_tx, w_rx, w_tx
-            if hasattr(self, "SNRM"):
-                del self.SNRM
         except IndexError as e:
             raise ValueError(F"got wrong UA {content.hex(' ')}")
 
-    @cached_property
+    @property
     def SNRM(self) -> memoryview:
         def small_pack(field: int, data: int):
             nonlocal buf, offset
-- 
2.43.0


From b5ee108e74517743f26866b3216b06b75a8648f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:57 +0000
Subject: [PATCH 066/159] fix: AppVersion without patch is comparable, before
 all the patches of its branch

---
 src/DLMS_SPODES/version.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/version.py b/src/DLMS_SPODES/version.py
index eba8e65..609b820 100644
--- a/src/DLMS_SPODES/version.py
+++ b/src/DLMS_SPODES/version.py
@@ -64,6 +64,8 @@ class AppVersion:
             return False
         if self.__patch is None:
             return False
+        elif other.patch is None:
+            return True
         elif self.__patch > other.patch:
             return True
         else:
@@ -79,6 +81,8 @@ class AppVersion:
         elif self.__minor < other.minor:
             return False
         if self.__patch is None:
+            return other.patch is None
+        elif other.patch is None:
             return True
         elif self.__patch > other.patch:
             return True
@@ -106,4 +110,4 @@ class AppVersion:
 
     def select_nearest(self, variants: list[AppVersion]) -> AppVersion | None:
         """ select left nearest from list in minor branch else return None """
-        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var.patch <= self.__patch, variants), default=None)
+        return max(filter(lambda var: var.major == self.__major and var.minor == self.__minor and var <= self, variants), default=None)
-- 
2.43.0


From 2c9f96df8e7c7ea2b2bd626c7a3938d99e083d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 067/159] fix: relation group of payment metering, twisted pair
 and gas flow rate objects is found instead of TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 32cb800..2420d04 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2321,7 +2321,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 18 and ln.d == 0:
             return media_id.ARRAY_MANAGER_OBJECT
         elif ln.c == 19:
-            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or ln.d in (range(50, 60) and ln.e in (1, 2)):
+            if (ln.d in range(0, 10) and ln.e == 0) or ln.d in range(10, 50) or (ln.d in range(50, 60) and ln.e in (1, 2)):
                 return media_id.PAYMENT_METERING_RELATED_OBJECTS
         elif ln.c == 20 and ln.d == 0 and ln.e in (0, 1):
             return media_id.IEC_LOCAL_PORT_SETUP_OBJECTS
@@ -2330,7 +2330,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
         elif ln.c == 22 and ln.d == 0 and ln.e == 0:
             return media_id.IEC_HDLC_SETUP_OBJECTS
         elif ln.c == 23:
-            if (ln.d in 0, 1, 2 and ln.e == 0) or ln.d == 3:
+            if (ln.d in (0, 1, 2) and ln.e == 0) or ln.d == 3:
                 return media_id.IEC_TWISTED_PAIR_1_SETUP_OBJECTS
         elif ln.c == 24:
             if (ln.d in (0, 1, 4, 5, 6) and ln.e == 0) or (ln.d in (2, 8, 9)):
@@ -2617,7 +2617,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
         elif ln.c == 42 and ln.e == 0:
-            if ln.d in chain(0, 1, 2, 13, range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
+            if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-- 
2.43.0


From 3a309c8439c4375cdfd7bfbdb47354c599342533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 068/159] fix: gas process values with D 15..91 belong to their
 relation group

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2420d04..32c6b87 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2621,7 +2621,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
-        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in (0, 2, 3, 10, 11, 13, range(15, 92)) and ln.e == 0 and ln.f == 255:
+        elif ln.c in chain((41, 42), range(44, 50)) and ln.d in chain((0, 2, 3, 10, 11, 13), range(15, 92)) and ln.e == 0 and ln.f == 255:
             return media_id.MEASURED_VALUES_GAS_PROCESS_VALUES
         elif ln.c in range(51, 56):
             if ln.d in (0, 2, 3, 10, 11) and ln.e in chain((0, 1), range(11, 29)) and ln.f == 255:
-- 
2.43.0


From 52bdfd2c79b85a91e3b46da726ea4ce9cf9524d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 069/159] fix: relation group of an object absent in the tables
 is its medium

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 32c6b87..28e1dce 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2669,7 +2669,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
             return media_id.DATA_PROFILE_OBJECTS_WATER
         else:
             return media_id.WATER
-    return media_id.OTHER_MEDIA
+    return next((m for m in RelationGroups if ln.a == m), media_id.OTHER_MEDIA)
 
 
 DLMSObjectContainer: TypeAlias = Collection | list[InterfaceClass] | filter
-- 
2.43.0


From 604124115a560b28e3083dd85ef254cace43195e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 070/159] fix: error register, list, data profile and energy of
 thermal objects get their relation groups

---
 .../cosem_interface_classes/collection.py         | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 28e1dce..8ee1e6b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2569,14 +2569,15 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
                 elif ln.d in (1, 2, 4, 5, 12, 13, 14, 15) and ln.f in chain(range(100), range(100, 126)):
                     return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
+                elif ln.d in chain((5, 15), range(20, 26)) and ln.f == 255:
+                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
             elif ln.d == 6 and ln.e == 255 and ln.f == 255:
                 return media_id.MEASURED_VALUES_THERMAL_CONSUMPTION
-        elif ln.e in range(10):
-            if ln.f in __range100_and_101_125_and_255:
-                if ln.c in range(1, 8) and ln.d in (5, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
-                elif ln.c in (8, 9) and ln.d in (1, 4, 5, 12, 13, 14, 15):
-                    return media_id.MEASURED_VALUES_THERMAL_ENERGY
+        elif ln.c in range(8, 14) and ln.e in range(10):
+            if ln.d in range(20, 26) and ln.f == 255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
+            elif ln.c in (8, 9) and ln.d in (1, 4, 5, 12, 13, 14, 15) and ln.f in __range100_and_101_125_and_255:
+                return media_id.MEASURED_VALUES_THERMAL_ENERGY
             elif ln.c in range(10, 14):
                 if ln.d == 0 and ln.f == 255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
@@ -2584,8 +2585,6 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
                 elif ln.d in (6, 7, 10, 11) and ln.f == 255:
                     return media_id.MEASURED_VALUES_THERMAL_ENERGY
-            elif ln.c in range(1, 14) and (ln.d in range(20, 26)) and ln.f == 255:
-                return media_id.MEASURED_VALUES_THERMAL_ENERGY
         elif ln.c == 97 and ln.d == 97 and ln.e in (0, 1, 2):
             return media_id.ERROR_REGISTER_OBJECTS_THERMAL
         elif ln.c == 98:
-- 
2.43.0


From 3f368d9f9531931d4eeed2a203e0b1e67cadc055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:16 +0000
Subject: [PATCH 071/159] fix: name of an object with unknown processing,
 harmonic or angle is found as unknown instead of exception

---
 src/DLMS_SPODES/relation_to_OBIS.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/relation_to_OBIS.py b/src/DLMS_SPODES/relation_to_OBIS.py
index beb3ab7..eb325d6 100644
--- a/src/DLMS_SPODES/relation_to_OBIS.py
+++ b/src/DLMS_SPODES/relation_to_OBIS.py
@@ -47,7 +47,7 @@ def get_obj_names(electric_obj: int) -> str:
         case 131: return F"{rn.POWER_REACTIVE_FACTOR} {rn.ALL_PHASE}"
         case 133: return F"{rn.VOLTAGE_ASYMMETRY_COEFFICIENT}"
         case 147: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.FOR} {rn.VOLTAGE}"
-        case _:   raise ValueError(F"getting electrical name by C group with unknown: C={electric_obj}")
+        case _:   return rn.UNKNOWN
 
 
 def get_harmonics_name(classification: int) -> str:
@@ -59,7 +59,7 @@ def get_harmonics_name(classification: int) -> str:
         case 126:                             return rn.ALL_HARMONICS
         case 127:                             return rn.ALL_HARMONICS_TO_NOMINAL_VALUE_RATIO
         case _ if 120 >= classification >= 1: return F"{rn.HARMONIC} {classification}"
-        case _: raise ValueError(F"for get harmonics unknown {classification=}")
+        case _: return rn.UNKNOWN
 
 
 def get_processing_names(d: int) -> str:
@@ -124,7 +124,7 @@ def get_processing_names(d: int) -> str:
         case 129: return rn.RU_NEGATIVE_DEVIATION
         case 133: return F"{rn.RU_TOTAL_DEVIATION_TIME} {rn.BILLING_PERIOD}"
         case 134: return rn.RU_CHANGE_LIMIT_LEVEL
-        case _:  raise ValueError(F'Unknown Processing of measurement values {d}')
+        case _:  return rn.UNKNOWN
 
 
 def get_rate(value: int) -> str:
@@ -407,7 +407,7 @@ def get_name(logical_name: cst.LogicalName) -> str:
             return F"{handle_B(b)}{rn.REACTIVE_FACTOR} {get_processing_names(d)}"
         case  1, 0, 147 as c, 133, 0: return F"{get_obj_names(c)} {rn.BILLING_PERIOD}"
         case  1, 0, 148, 36, 0: return F"{rn.OVER_VOLTAGE_COUNTER} {rn.BILLING_PERIOD}"
-        case 1, b, 81, 7, e if e < 78:
+        case 1, b, 81, 7, e if e < 78 and e % 10 < 8:
             angel_values = (rn.U_L1, rn.U_L2, rn.U_L3, rn.ERROR, rn.I_L1, rn.I_L2, rn.I_L3, rn.I_L0)
             to_, from_ = divmod(logical_name.e, 10)
             return F"{F'{rn.ANGLE_FROM} {angel_values[from_]} {rn.TO} {angel_values[to_]}'}{handle_B(b)}"
-- 
2.43.0


From 69a90859dc90cf5a5c44d47d50f69d9183a889d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:22 +0000
Subject: [PATCH 072/159] fix: English names of parameter change and operating
 status objects

---
 .../Values/EN/relation_to_obis_names.py       | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
index 73169fb..48e7033 100644
--- a/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
+++ b/src/DLMS_SPODES/Values/EN/relation_to_obis_names.py
@@ -384,3 +384,23 @@ SPODES3_NOT_METROLOGICAL_FIRMWARE_ID = "RU. SPODES3. Not metrological firmware i
 # 7.2.4 Summary of rules for manufacturer, utility, consortia and country specific codes. Table 54
 # KPZ - Kurgansky Priborostroitelny Zavod
 KPZ_INTERFACE_LIST = "KPZ. Interface list"
+
+# names of 0-b:96.2.e and 0-0:96.5.e
+NUMBER_OF_CONFIGURATION_PROGRAM_CHANGES = "Number of configuration program changes"
+DATE_A_OF_LAST_CONFIGURATION_PROGRAM_CHANGE = "Date of last configuration program change"
+DATE_A_OF_LAST_TIME_SWITCH_PROGRAM_CHANGE = "Date of last time switch program change"
+DATE_A_OF_LAST_RIPPLE_CONTROL_RECEIVER_PROGRAM_CHANGE = "Date of last ripple control receiver program change"
+STATUS_OF_SECURITY_SWITCHES = "Status of security switches"
+DATE_A_OF_LAST_CALIBRATION = "Date of last calibration"
+DATE_A_OF_NEXT_CONFIGURATION_PROGRAM_CHANGE = "Date of next configuration program change"
+DATE_A_OF_ACTIVATION_OF_THE_PASSIVE_CALENDAR = "Date of activation of the passive calendar"
+NUMBER_OF_PROTECTED_CONFIGURATION_PROGRAM_CHANGES = "Number of protected configuration program changes"
+DATE_A_OF_LAST_PROTECTED_CONFIGURATION_PROGRAM_CHANGE = "Date of last protected configuration program change"
+DATE_A_CORRECTED_OF_LAST_CLOCK_SYNCHRONIZATION_SETTING = "Date (corrected) of last clock synchronization/setting"
+DATE_OF_LAST_FIRMWARE_ACTIVATION = "Date of last firmware activation"
+
+INTERNAL_OPERATING_STATUS_GLOBAL = "Internal operating status, global"
+INTERNAL_OPERATING_STATUS_1 = "Power quality status (profile of daily testimony)"
+INTERNAL_OPERATING_STATUS_2 = "Internal operating status 2"
+INTERNAL_OPERATING_STATUS_3 = "Internal operating status 3"
+INTERNAL_OPERATING_STATUS_4 = "Power quality status (power quality log)"
-- 
2.43.0


From 22d12ace40fec82d9cf87cff9cd7176f6c9cec76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:26 +0000
Subject: [PATCH 073/159] fix: gas flow rate is C 43, 42 is absolute pressure
 of the process values

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 8ee1e6b..d42af56 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2615,7 +2615,7 @@ def get_relation_group(ln: cst.LogicalName) -> RelationGroup:
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
             elif ln.d in chain(range(33, 42), range(52, 63), range(72, 81), range(90, 99)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
                 return media_id.MEASURED_VALUES_GAS_INDEXES_AND_INDEX_DIFFERENCES
-        elif ln.c == 42 and ln.e == 0:
+        elif ln.c == 43 and ln.e == 0:
             if ln.d in chain((0, 1, 2, 13), range(15, 19), range(19, 31), range(35, 51), range(55, 71)) and ln.f == 255:
                 return media_id.MEASURED_VALUES_GAS_FLOW_RATE
             elif ln.d in chain(range(31, 35), range(51, 55)) and ln.f in chain(__range100_and_101_125_and_255, (126,)):
-- 
2.43.0


From 3b7cbdc7bbe45c654e654be85a24da772cee0932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 074/159] fix: class map of value group C is searched by A and
 C of logical name, not by A and D

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d42af56..4a832da 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -559,7 +559,7 @@ def get_type(class_id: CosemClassId,
                 c_m = func_map.get((ln.contents[:5]), None)
                 if not c_m:
                     # try search in C group
-                    c_m = func_map.get((ln.contents[:1]+ln.contents[3:4]), common_interface_class_map)
+                    c_m = func_map.get((ln.contents[:1]+ln.contents[2:3]), common_interface_class_map)
     return get_interface_class(class_map=c_m,
                                c_id=class_id,
                                ver=version)
-- 
2.43.0


From c440c08161838e53441179f5d32abc9e4b9c1663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 075/159] fix: results of collection queries are not cached,
 the cache was shared by collections with same identification and never
 renewed

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4a832da..8201553 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1404,7 +1404,6 @@ class Collection:
                 logger.warning(F'Dont remove with: {logical_name}')
                 return False
 
-    @lru_cache(maxsize=100)  # amount of all classID
     def find_version(self, class_id: CosemClassId) -> cdt.Unsigned:
         """use for add new object from profile_generic if absence in object list"""
         return next(filter(lambda obj: obj.CLASS_ID == class_id, self.__container.values())).VERSION
@@ -1692,7 +1691,6 @@ class Collection:
         else:
             raise ValueError(F"object with {ln} is not {ScriptTable.CLASS_ID}")
 
-    @lru_cache(4)
     def get_association_id(self, client_sap: enums.ClientSAP) -> int:
         """return id(association instance) from it client address without current"""
         for ass in self.get_objects_by_class_id(classID.ASSOCIATION_LN):
@@ -1703,7 +1701,6 @@ class Collection:
         else:
             raise ValueError(F"absent association with {client_sap}")
 
-    @lru_cache(maxsize=1000)
     def is_readable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1715,7 +1712,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_writable(self, ln: cst.LogicalName,
                     index: int,
                     association_id: int,
@@ -1727,7 +1723,6 @@ class Collection:
             security_policy=security_policy
         )
 
-    @lru_cache(maxsize=1000)
     def is_accessible(self, ln: cst.LogicalName,
                       index: int,
                       association_id: int,
@@ -1741,7 +1736,6 @@ class Collection:
             m_id=m_id
         )
 
-    @lru_cache(maxsize=100)
     def get_name_and_type(self, value: structs.CaptureObjectDefinition) -> tuple[list[str], Type[cdt.CommonDataType]]:
         """ return names and type of element from collection"""
         names: list[str] = list()
-- 
2.43.0


From 588f44dc62cee9e8a9c83b4efeb4ccb3d49e29d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:41 +0000
Subject: [PATCH 076/159] fix: collection gives the present LDN, associations
 and other objects instead of the first got ones

---
 .../cosem_interface_classes/collection.py            | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 8201553..8e4c392 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, cached_property, lru_cache
+from functools import reduce, lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1510,11 +1510,11 @@ class Collection:
         else:
             return obj
 
-    @cached_property
+    @property
     def LDN(self) -> impl.data.LDN:
         return self.__get_object(o.LDN)
 
-    @cached_property
+    @property
     def current_association(self) -> AssociationLN:
         return self.__get_object(o.CURRENT_ASSOCIATION)
 
@@ -1524,7 +1524,7 @@ class Collection:
     def getAssociationBySAP(self, SAP: enums.ClientSAP) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, self.get_association_id(SAP), 255)))
 
-    @cached_property
+    @property
     def PUBLIC_ASSOCIATION(self) -> AssociationLN:
         return self.__get_object(bytes((0, 0, 40, 0, 1, 255)))
 
@@ -1547,7 +1547,7 @@ class Collection:
     def getIECHDLCSetup(self, ch: int = 0) -> IECHDLCSetup:
         return self.__get_object(bytes((0, ch, 22, 0, 0, 255)))
 
-    @cached_property
+    @property
     def TCP_UDP_setup(self) -> TCPUDPSetup:
         return self.__get_object(bytes((0, 0, 25, 0, 0, 255)))
 
@@ -1574,7 +1574,7 @@ class Collection:
     def firmware_version(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 2, 255)))
 
-    @cached_property
+    @property
     def device_type(self) -> Data:
         return self.__get_object(bytes((0, 0, 96, 1, 1, 255)))
 
-- 
2.43.0


From a51d3d8cb1d3e251b8885b85676d4559c1f12c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 077/159] fix: specification is set when only versions of other
 instances than 0 are known

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 8e4c392..a1fb71c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1319,7 +1319,7 @@ class Collection:
             if self.country_ver == AppVersion(3, 0):
                 self.__spec = "SPODES_3"
             if self.manufacturer == b"KPZ":
-                if self.server_ver and self.server_ver.get(0) < AppVersion(1, 3, 30):
+                if (server_ver := self.server_ver.get(0)) is not None and server_ver < AppVersion(1, 3, 30):
                     self.__spec = "KPZ1"
                 else:
                     self.__spec = "KPZ"
-- 
2.43.0


From 78293c5050fc5703c703e8de3a215369ca4e73c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 078/159] fix: server versions without patch are compared
 instead of TypeError

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index a1fb71c..37daeac 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -723,7 +723,7 @@ class Collection:
         else:
             if value.major != self.__server_ver[instance].major or value.minor != self.__server_ver[instance].minor:
                 raise ValueError(F"attempt set server version[{instance}]: {value}, existed {self.__server_ver[instance]}. Execute search of type")
-            elif value.patch <= self.__server_ver[instance].patch:
+            elif value <= self.__server_ver[instance]:
                 """success validation"""
             else:
                 raise ValueError(F"got more hi patch: {value} expected before {self.__server_ver[instance].patch}")
-- 
2.43.0


From e795f0ff5d143ce0eebc85fa93dc5f9304b982aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 079/159] fix: objects are filtered by media, and by other keys
 without a pattern

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 37daeac..1cf86fe 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2267,9 +2267,9 @@ def get_filtered(objects: list[InterfaceClass],
             continue
         elif group and get_relation_group(obj.logical_name).subgroup not in group:
             continue
-        elif media and get_media_id(obj.logical_name) not in media:
+        elif media and get_media_id(obj.logical_name).subgroup not in media:
             continue
-        elif obj.logical_name not in patterns:
+        elif patterns and obj.logical_name not in patterns:
             continue
         new_list.append(obj)
     return new_list
-- 
2.43.0


From ba2d49bd3e3f4668fb3e76f42ab87db95f774f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:46 +0000
Subject: [PATCH 080/159] fix: encode of a set attribute returns the new value
 instead of None

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index b5f8007..778d95d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -229,7 +229,8 @@ class COSEMInterfaceClasses(ABC):
                 return self.get_attr_element(index).DATA_TYPE(value)
         else:
             ret = attr.copy()
-            return ret.set(value)
+            ret.set(value)
+            return ret
 
     def set_attr(self,
                  index: int,
-- 
2.43.0


From ea5ad4fcdf5e47de680ed06602de3d970d519534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:53 +0000
Subject: [PATCH 081/159] fix: values of objects are copied to objects of any
 class, result is True only when all are copied

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py         | 4 ++--
 .../cosem_interface_classes/cosem_interface_class.py          | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1cf86fe..1b5b6dc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -9,7 +9,7 @@ from struct import pack
 import datetime
 from dataclasses import dataclass
 from itertools import count, chain
-from functools import reduce, lru_cache
+from functools import lru_cache
 from typing import TypeAlias, Iterator, Type, Self, Callable, Literal
 import logging
 from ..version import AppVersion
@@ -1495,7 +1495,7 @@ class Collection:
     def copy_objects_attr_values_from(self, other: Collection) -> bool:
         """ Copy collections values and return True if all was writen """
         if len(other) != 0:
-            return bool(reduce(lambda a, b: a or b, map(self.copy_obj_attr_values_from, other.values())))
+            return all([self.copy_obj_attr_values_from(obj) for obj in other.values()])
         else:
             return False
 
diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 778d95d..c79d022 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -286,7 +286,7 @@ class COSEMInterfaceClasses(ABC):
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
         self.__record_time[index-2] = cdt.DateTime(value)
 
-    def get_index_with_attributes(self) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
+    def get_index_with_attributes(self, in_init_order: bool = False) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
         """ if by initiation order is True then need override method for concrete class"""
         return iter(zip(range(1, self.get_attr_length()+1), self.__attributes))
 
-- 
2.43.0


From 94d750a45fdb8a4fe0fc92a51c8c9586d74bf37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 082/159] fix: elements of the copy of an array have the type
 of its elements

---
 src/DLMS_SPODES/types/common_data_types.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 934a099..e0faaae 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1130,10 +1130,7 @@ class Array(__Array, ComplexDataType):
         return self.values[item]
 
     def copy(self) -> Self:
-        new = self.__class__(self.encoding)
-        if self.TYPE is not None:
-            new.__dict__["TYPE"] = self.TYPE
-        return new
+        return self.__class__(self.encoding, self.TYPE)
 
     def insert(self, index: int, element: CommonDataType):
         if self.unique and element in self.values:
-- 
2.43.0


From 752f21f18f19d256a1326de741520b93e07beef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:15 +0000
Subject: [PATCH 083/159] fix: copied object has own values, not writable ones
 were shared with the cached collection

---
 .../cosem_interface_class.py                  | 30 ++++++-------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index c79d022..a2c6531 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -165,27 +165,15 @@ class COSEMInterfaceClasses(ABC):
             if i == 1 or value is None or (not isinstance(el.DATA_TYPE, ut.CHOICE) and el.classifier == Classifier.DYNAMIC):
                 continue
             else:
-                if source.collection is not None and self.get_attr_element(i).classifier == Classifier.STATIC and not source.collection.is_writable(ln=self.logical_name,
-                                                                                                                                                    index=i,
-                                                                                                                                                    association_id=association_id):
-                    # Todo: may be callbacks inits remove?
-                    if cb_func := self._cbs_attr_before_init.get(i, None):
-                        cb_func(value)                    # Todo: 'a' as 'new_value' in set_attr are can use?
-                        self._cbs_attr_before_init.pop(i)
-                    self.__attributes[i-1] = value
-                    if cb_func := self._cbs_attr_post_init.get(i, None):
-                        cb_func()
-                        self._cbs_attr_post_init.pop(i)
-                else:
-                    if isinstance(arr := self.__attributes[i-1], cdt.Array):
-                        arr.set_type(value.TYPE)
-                    try:
-                        self.set_attr(
-                            index=i,
-                            value=value.encoding,
-                            data_type=source.get_attr(i).__class__)
-                    except exc.EmptyObj as e:
-                        logger.warning(F"can't copy {self} attr={i}, skipped. {e}")
+                if isinstance(arr := self.__attributes[i-1], cdt.Array):
+                    arr.set_type(value.TYPE)
+                try:
+                    self.set_attr(
+                        index=i,
+                        value=value.encoding,
+                        data_type=source.get_attr(i).__class__)
+                except exc.EmptyObj as e:
+                    logger.warning(F"can't copy {self} attr={i}, skipped. {e}")
 
     @classmethod
     def get_attr_element(cls, i: int) -> ICAElement:
-- 
2.43.0


From c90ace973ebb5b0558a90f4d91ca8717e41c3379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 084/159] fix: thresholds set before the monitored value are
 kept when their type is right

---
 .../cosem_interface_classes/register_monitor.py           | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 7b6b9a4..785d78c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -46,4 +46,10 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
         return self.get_attr(4)
 
     def __set_threshold_type(self):
-        self.thresholds.set_type(self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index)).__class__)
+        value = self.collection.get_object(self.monitored_value.logical_name).get_attr(int(self.monitored_value.attribute_index))
+        if value is not None:
+            elements = tuple(self.thresholds)
+            self.thresholds.set_type(value.__class__)
+            if all(el.TAG == value.TAG for el in elements):
+                for el in elements:
+                    self.thresholds.append(value.__class__(el.encoding))
-- 
2.43.0


From d45dc4977ad08f25c1eff2fe823b270dbbff1c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:16 +0000
Subject: [PATCH 085/159] fix: day of sunday is validated, day ID 255 is vacant
 too

---
 src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 01971ee..0fee8bc 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -105,7 +105,7 @@ class DayProfileTable(cdt.Array):
     def new_element(self) -> DayProfile:
         """return default DayProfile with vacant Day ID"""
         day_ids: list[int] = [int(el.day_id) for el in self.values]
-        for i in range(0xff):
+        for i in range(0x100):
             if i not in day_ids:
                 return DayProfile((i, None))
         raise ValueError(F'in {self} all days ID is busy')
@@ -293,7 +293,7 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
                     weeks.append(week_profile.week_profile_name)
                 else:
                     duplicates.add(week_profile.week_profile_name)
-                for i in range(1, 7):
+                for i in range(1, 8):
                     if week_profile[i] not in days:
                         raise ic.ObjectValidationError(
                             ln=self.logical_name,
-- 
2.43.0


From 630ad43b772a14bb79aa2936a553d8bd0c90f749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 086/159] fix: collection without object list of associations
 is copied instead of exception

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1b5b6dc..82967bd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -619,10 +619,14 @@ class Collection:
             new_collection.__container[obj.logical_name.contents] = new_obj
             new_obj.collection = new_collection
             if obj.CLASS_ID == classID.ASSOCIATION_LN:
-                if max_ass is None or (obj.object_list and len(max_ass.object_list) < len(obj.object_list)):
+                if obj.object_list is not None and (max_ass is None or len(max_ass.object_list) < len(obj.object_list)):
                     max_ass = obj
-        obj_for_set = max_ass.get_objects()
-        ass_id: int = max_ass.logical_name.e
+        if max_ass is None:  # nothing is known about associations
+            obj_for_set = list(self.__container.values())
+            ass_id: int = 3
+        else:
+            obj_for_set = max_ass.get_objects()
+            ass_id: int = max_ass.logical_name.e
         last_length = len(obj_for_set)
         raise_count = None
         while len(obj_for_set) != 0:
-- 
2.43.0


From 4deceb779e6c6a28ada0b48800b8a43f712abf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:40 +0000
Subject: [PATCH 087/159] fix: copy of collection has server type and versions
 of the original, and so its specification

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 82967bd..8d40151 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -611,6 +611,9 @@ class Collection:
         new_collection.set_manufacturer(self.__manufacturer)
         new_collection.set_country_ver(self.__country_ver)
         new_collection.set_collection_ver(self.__collection_ver)
+        new_collection.set_server_type(self.__server_type)
+        for instance, value in self.__server_ver.items():
+            new_collection.set_server_ver(instance, value)
         new_collection.set_spec()
         max_ass: AssociationLN | None = None
         """more full association"""  # todo: move to collection(from_xml)
@@ -2088,7 +2091,7 @@ def get_collection(
 ) -> Collection:
     """get copy of collection with caching"""
     ret = get(manufacturer, server_type, server_ver).copy()
-    ret.set_server_type(server_type)  # if xml file not contains the type
+    ret.set_server_type(server_type, force=True)  # if xml file not contains the type
     return ret
 
 
-- 
2.43.0


From 6627e0d99539a757a1e43f426b4dc75a2a7c4e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:01 +0000
Subject: [PATCH 088/159] fix: every object of association is copied or the
 copy fails, LDN of the copy may be set

---
 .../cosem_interface_classes/collection.py     | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 8d40151..7946e2b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -630,25 +630,21 @@ class Collection:
         else:
             obj_for_set = max_ass.get_objects()
             ass_id: int = max_ass.logical_name.e
-        last_length = len(obj_for_set)
-        raise_count = None
+        failed: int = 0
+        """amount of failed objects in a row"""
         while len(obj_for_set) != 0:
             obj = obj_for_set.pop(0)
             try:
                 new_collection.__container.get(obj.logical_name.contents).copy(obj, ass_id)
-                raise_count = None
+                failed = 0
             except Exception as e:
-                if last_length == len(obj_for_set):
-                    if not raise_count:
-                        raise_count = count(last_length, -1)
-                        continue
-                    else:
-                        next(raise_count)
-                        raise e
-                else:
-                    last_length = len(obj_for_set)
-                    logger.warning(F"can't set value. {e}. leftover {len(obj_for_set)} objects")
-                    obj_for_set.append(obj)
+                obj_for_set.append(obj)
+                failed += 1
+                if failed == len(obj_for_set):  # without progress
+                    raise e
+                logger.warning(F"can't set value. {e}. leftover {len(obj_for_set)} objects")
+        if ldn:
+            new_collection.LDN.set_attr(2, ldn)
         return new_collection
 
     @property
-- 
2.43.0


From 4dfc9e46034dffb8caf10135975b0ff4ddaac99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:33 +0000
Subject: [PATCH 089/159] fix: attribute or method of index less than one is
 IndexError, not the last one

---
 .../cosem_interface_classes/cosem_interface_class.py           | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index a2c6531..a01ddd0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -180,11 +180,14 @@ class COSEMInterfaceClasses(ABC):
         """return element by order index. Override in each new class"""
         match i:
             case 1: return _LN_ELEMENT
+            case _ if i < 1: raise IndexError(F"for {cls.__name__} got attribute index: {i}, expected 1..{len(cls.A_ELEMENTS)+1}")
             case _: return cls.A_ELEMENTS[i - 2]
 
     @classmethod
     def get_meth_element(cls, i: int) -> ICElement:
         """ implement in subclasses with methods """
+        if i < 1:
+            raise IndexError(F"for {cls.__name__} got method index: {i}, expected 1..{len(cls.M_ELEMENTS)}")
         return cls.M_ELEMENTS[i - 1]
 
     @abstractmethod
-- 
2.43.0


From e69435b9142f39582d5e5a12181c97ee60b59b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:42 +0000
Subject: [PATCH 090/159] fix: GSM diagnostic of version 1 has version 1

---
 src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
index b4b2ac4..cc1eff6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/gsm_diagnostic/ver1.py
@@ -27,6 +27,7 @@ class AdjacentCells(cdt.Array):
 
 
 class GSMDiagnostic(ver0.GSMDiagnostic):
+    VERSION = Version.V1
     A_ELEMENTS = (ver0.GSMDiagnostic.get_attr_element(2),
                   ver0.GSMDiagnostic.get_attr_element(3),
                   ver0.GSMDiagnostic.get_attr_element(4),
-- 
2.43.0


From 085034ba923cf5450f0dc63ee0ae85fe420bee78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:10 +0000
Subject: [PATCH 091/159] fix: authenticated access to a method is found by the
 mechanism id instead of TypeError

---
 .../cosem_interface_classes/association_ln/ver0.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index d062d03..0b77c08 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -492,9 +492,9 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             case pdu.MethodAccess.ACCESS:
                 return True
             case pdu.MethodAccess.AUTHENTICATED_ACCESS:
-                if not m_id:
+                if m_id is None:
                     m_id = self.authentication_mechanism_name.mechanism_id_element
-                if m_id >= mechanism_id.LOW:
+                if int(m_id) >= int(mechanism_id.LOW):
                     return True
                 else:
                     return False
-- 
2.43.0


From 8ec7428aa4c8d45e19734f00117881253cfaafc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:05 +0000
Subject: [PATCH 092/159] fix: absent server type of any data type is NoConfig,
 not only of types with to_str

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 7946e2b..0fb9c06 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2064,12 +2064,12 @@ def get_dir_entry(m: bytes, t: cdt.CommonDataType, ver: AppVersion) -> os.DirEnt
     if (man := get_manufactures_container().get(m)) is None:
         raise exc.NoConfig(F"no support manufacturer: {m.decode('utf-8', errors='strict')}")
     elif (type_ := man.get(t.encoding)) is None:
-        raise exc.NoConfig(F"no support type {t.to_str()}, with manufacturer: {m.decode('utf-8', errors='strict')}")
+        raise exc.NoConfig(F"no support type {t}, with manufacturer: {m.decode('utf-8', errors='strict')}")
     elif (f := type_.get(ver)) is None:
         if searched_version := ver.select_nearest(type_.keys()):
             return type_.get(searched_version)
         else:
-            raise exc.NoConfig(F"no support version {ver} with manufacturer: {m.decode('utf-8', errors='strict')}, type: {t.to_str()}")
+            raise exc.NoConfig(F"no support version {ver} with manufacturer: {m.decode('utf-8', errors='strict')}, type: {t}")
     logger.info(F"got collection from library by path: {f.path}")
     return f
 
-- 
2.43.0


From 073c83a096a300ca410348fc7a19fd2608a72c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 093/159] fix: record time of the logical name is its own, not
 the one of the last attribute

---
 .../cosem_interface_classes/cosem_interface_class.py   | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index a01ddd0..2e458b8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -143,7 +143,7 @@ class COSEMInterfaceClasses(ABC):
         self._cbs_attr_before_init = dict()
         """container with callbacks for before initial attribute by index"""
 
-        self.__record_time = [None] * len(self.A_ELEMENTS)
+        self.__record_time = [None] * (len(self.A_ELEMENTS) + 1)
 
         # init all attributes with default value
         for i in range(2, len(self.A_ELEMENTS)+2):
@@ -272,10 +272,14 @@ class COSEMInterfaceClasses(ABC):
             raise IndexError(F'not support {index=} as attribute')
 
     def get_record_time(self, index: int) -> cdt.DateTime | None:
-        return self.__record_time[index-2]
+        if index < 1:
+            raise IndexError(F"not support {index=} as attribute")
+        return self.__record_time[index-1]
 
     def set_record_time(self, index: int, value: str | bytes | cdt.DateTime):
-        self.__record_time[index-2] = cdt.DateTime(value)
+        if index < 1:
+            raise IndexError(F"not support {index=} as attribute")
+        self.__record_time[index-1] = cdt.DateTime(value)
 
     def get_index_with_attributes(self, in_init_order: bool = False) -> Iterator[tuple[int, cdt.CommonDataType | None]]:
         """ if by initiation order is True then need override method for concrete class"""
-- 
2.43.0


From 16d16485c1e07ca181df86728ab0e9da88880a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:26 +0000
Subject: [PATCH 094/159] fix: an attribute initiated again after clear gets
 its callbacks again

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 2e458b8..92f05d7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -233,11 +233,9 @@ class COSEMInterfaceClasses(ABC):
             new_value = data_type(value)
             if cb_func := self._cbs_attr_before_init.get(index, None):
                 cb_func(new_value)
-                self._cbs_attr_before_init.pop(index)
             self.__attributes[index-1] = new_value
             if cb_func := self._cbs_attr_post_init.get(index, None):
                 cb_func()
-                self._cbs_attr_post_init.pop(index)
             else:
                 """without callback post init"""
         else:
-- 
2.43.0


From b4b00ea2f4068165ece0f2b5760e96c49caf5da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:12 +0000
Subject: [PATCH 095/159] fix: entries of a schedule can be copied

---
 src/DLMS_SPODES/cosem_interface_classes/schedule.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/schedule.py b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
index 332d2fb..132be2a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/schedule.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/schedule.py
@@ -49,8 +49,8 @@ class Entries(cdt.Array):
     TYPE = ScheduleTableEntry
     unique = True
 
-    def __init__(self, value: bytes = None):
-        super(Entries, self).__init__(value)
+    def __init__(self, value: bytes = None, type_: type[cdt.CommonDataType] = None):
+        super(Entries, self).__init__(value, type_)
         # setting callback for validate schedule_table_entry index
         for schedule_table_entry in self:
             schedule_table_entry: ScheduleTableEntry
-- 
2.43.0


From 4403794fc2ca3710899e5c944e942c9d7c46f0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:03 +0000
Subject: [PATCH 096/159] fix: value of a register has no unit after the
 scaler_unit was cleared

---
 .../cosem_interface_classes/demand_register/ver0.py        | 7 +++++++
 src/DLMS_SPODES/cosem_interface_classes/register.py        | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index c484bb5..fc36cad 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -58,6 +58,13 @@ class DemandRegister(ic.COSEMInterfaceClasses):
         self.scaler_unit_not_settable = False
         """ usability scaler unit flag. if True then it not used"""
 
+    def clear_attr(self, i: int):
+        super(DemandRegister, self).clear_attr(i)
+        if i == 4:
+            for value in (self.current_average_value, self.last_average_value):
+                if isinstance(value, (cdt.Digital, cdt.Float)):
+                    value.SCALER_UNIT = None
+
     def __set_value_data_type(self, attr_index: int):
         """ When instead of a “Data” object a “Register” object is used, (with the scaler_unit attribute not used or with scaler = 0, unit = 255) then the data types allowed for
         the value attribute of the “Data” interface class are allowed. """
diff --git a/src/DLMS_SPODES/cosem_interface_classes/register.py b/src/DLMS_SPODES/cosem_interface_classes/register.py
index 1d78b4f..059c521 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register.py
@@ -53,6 +53,11 @@ class Register(ic.COSEMInterfaceClasses):
             case cdt.Digital() | cdt.Float():                                    raise ValueError(F'Got new scaler: {self.scaler_unit} not order with old {self.value.SCALER_UNIT}')
             case _:                                                              """set only for digital"""
 
+    def clear_attr(self, i: int):
+        super(Register, self).clear_attr(i)
+        if i == 3 and isinstance(self.value, (cdt.Digital, cdt.Float)):
+            self.value.SCALER_UNIT = None
+
     def get_report(self):
         match self.value, self.scaler_unit:
             case None, None: rep = '? ?'
-- 
2.43.0


From f0601819ed293a62e154abf64eba34588e8cb574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:41 +0000
Subject: [PATCH 097/159] fix: a collection without some objects of the object
 list can be copied

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 0fb9c06..9bdd091 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -628,7 +628,7 @@ class Collection:
             obj_for_set = list(self.__container.values())
             ass_id: int = 3
         else:
-            obj_for_set = max_ass.get_objects()
+            obj_for_set = [obj for el in max_ass.object_list if (obj := self.__container.get(el.logical_name.contents)) is not None]
             ass_id: int = max_ass.logical_name.e
         failed: int = 0
         """amount of failed objects in a row"""
-- 
2.43.0


From 714799d0669552921e59f33f62d85783328c7fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:42 +0000
Subject: [PATCH 098/159] fix: objects of the object list after a not supported
 one are added to the collection

---
 .../association_ln/ver0.py                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 0b77c08..e47d06a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -1,3 +1,4 @@
+import logging
 from enum import IntFlag, auto
 from ... import exceptions as exc
 from ..__class_init__ import *
@@ -7,6 +8,8 @@ from ... import pdu_enums as pdu
 from . import mechanism_id, authentication_mechanism_name
 from . import method
 
+logger = logging.getLogger(__name__)
+
 
 class AccessMode(cdt.Enum, elements=(0, 1, 2, 3)):
     """ TODO: """
@@ -344,11 +347,14 @@ class AssociationLN(ic.COSEMInterfaceClasses):
         self.object_list.selective_access = SelectiveAccessDescriptor()
         for obj_list_el in self.object_list:
             obj_list_el: ObjectListElement
-            self.collection.add_if_missing(
-                class_id=ut.CosemClassId(int(obj_list_el.class_id)),
-                version=obj_list_el.version,
-                logical_name=obj_list_el.logical_name
-            )
+            try:
+                self.collection.add_if_missing(
+                    class_id=ut.CosemClassId(int(obj_list_el.class_id)),
+                    version=obj_list_el.version,
+                    logical_name=obj_list_el.logical_name
+                )
+            except ValueError as e:  # not supported class, it is not a reason to lose the following objects
+                logger.warning(F"{self}: object {obj_list_el.logical_name} wasn't added to collection. {e}")
 
     def __check_mechanism_id_existing(self):
         """check for existing mechanism ID else ERASE setting"""
-- 
2.43.0


From 9458867a1b11a00ed41023be846034d46bdcc0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 099/159] fix: other media is a medium of the filter as all
 media are

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 9bdd091..511c964 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2253,7 +2253,7 @@ def get_filtered(objects: list[InterfaceClass],
     media: list[int] = list()
     group: list[int] = list()
     patterns: list[LNPattern] = list()
-    medias = tuple(m.subgroup for m in RelationGroups)
+    medias = tuple(m.subgroup for m in (*RelationGroups, media_id.OTHER_MEDIA))
     for k in keys:
         if isinstance(k, CosemClassId):
             c_ids.append(k)
-- 
2.43.0


From 841fffdef64f549e04232b2a5334b5d5807f7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:27 +0000
Subject: [PATCH 100/159] fix: tree of objects is built of tuple too

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 511c964..23a4973 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2158,7 +2158,7 @@ def get_object_tree(objects: list[InterfaceClass] | tuple[InterfaceClass],
         stack = [(None, None, ret)]
         while len(stack) != 0:
             d, k, v = stack.pop()
-            if isinstance(v, list):
+            if isinstance(v, (list, tuple)):
                 res = get_map_by_obj(v, key)
                 if d is None:
                     ret = res
-- 
2.43.0


From 213b5ad91b9f362f905ea6c8070d2dc37904fe47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:06 +0000
Subject: [PATCH 101/159] fix: tree of attributes has no empty groups on any
 level

---
 .../cosem_interface_classes/collection.py     | 54 ++++++++-----------
 1 file changed, 22 insertions(+), 32 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 23a4973..1f48012 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1782,38 +1782,28 @@ class Collection:
                 objects=filtered,
                 mode=sort_mode),
             mode=obj_mode)
-        stack = [(None, None, ret)]
-        while len(stack) != 0:
-            d, k, v = stack.pop()
-            if isinstance(d, dict):
-                for k_, v_ in tuple(d.items()):
-                    if len(v_) == 0:
-                        d.pop(k_)
-            if isinstance(v, list):
-                objects = dict()
-                for obj in v:
-                    indexes = list()
-                    for i, attr in obj.get_index_with_attributes():
-                        if without_ln and i == 1:
-                            continue
-                        elif only_read and not self.is_readable(obj.logical_name, i, ass_id):
-                            continue
-                        elif only_write and not self.is_writable(obj.logical_name, i, ass_id):
-                            continue
-                        else:
-                            indexes.append(i)
-                    if len(indexes) != 0:
-                        objects[obj] = indexes
-                if len(objects) != 0:
-                    d[k] = objects
-                else:
-                    d.pop(k)
-            elif isinstance(v, dict):
-                for k_, v_ in v.items():
-                    stack.append((v, k_, v_))
-            else:
-                raise ValueError('not support')
-        return ret
+
+        def reduce(v: dict | list) -> dict:
+            """objects with their indexes, without empty groups on each level"""
+            if isinstance(v, dict):
+                return {k: new for k, v_ in v.items() if len(new := reduce(v_)) != 0}
+            objects = dict()
+            for obj in v:
+                indexes = list()
+                for i, attr in obj.get_index_with_attributes():
+                    if without_ln and i == 1:
+                        continue
+                    elif only_read and not self.is_readable(obj.logical_name, i, ass_id):
+                        continue
+                    elif only_write and not self.is_writable(obj.logical_name, i, ass_id):
+                        continue
+                    else:
+                        indexes.append(i)
+                if len(indexes) != 0:
+                    objects[obj] = indexes
+            return objects
+
+        return reduce(ret)
 
     # def decode(self, file_name: str,
     #            root_tag: str = TagsName.DEVICE_ROOT.value):
-- 
2.43.0


From b6cf3c8ecdcecd008c515cfaad0d41795ee7ca03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:17 +0000
Subject: [PATCH 102/159] fix: special day with not specified parts of date is
 found on each such day

---
 .../cosem_interface_classes/special_days_table.py  | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index aa72f74..51a6fbf 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -1,3 +1,4 @@
+import calendar
 import datetime
 from .__class_init__ import *
 
@@ -8,6 +9,17 @@ class SpecDayEntry(cdt.Structure):
     specialday_date: cst.OctetStringDate
     day_id: cdt.Unsigned
 
+    def is_on(self, date: datetime.date) -> bool:
+        """the date is the special one, with wildcards"""
+        year_high, year_low, month, day, weekday = self.specialday_date.contents
+        if day in (0xfd, 0xfe):  # 2nd last and last day of month
+            day += calendar.monthrange(date.year, date.month)[1] - 0xfe
+        return all((
+            (year := year_high << 8 | year_low) == 0xffff or year == date.year,
+            month == 0xff or month == date.month,
+            day == 0xff or day == date.day,
+            weekday == 0xff or weekday == date.isoweekday()))
+
 
 class Entries(cdt.Array):
     """ Specifies the list of spec_day_entry """
@@ -97,7 +109,7 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
         else:
             current_date: datetime.date = server_time.date()
             for spec_day_entry in self.entries:
-                if spec_day_entry.specialday_date.decode() == current_date:
+                if spec_day_entry.is_on(current_date):
                     return spec_day_entry.day_id
             else:
                 return None
-- 
2.43.0


From 4fa200fc68e301517e6b62a7a2711559e7b92164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 103/159] fix: tables of a calendar made again after clear
 refer to the present tables

---
 .../cosem_interface_classes/activity_calendar.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
index 0fee8bc..8747e9f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/activity_calendar.py
@@ -139,6 +139,11 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
     def characteristics_init(self):
         # Attributes called …_active are currently active, attributes called …_passive will be activated by the specific
         # method activate_passive_calendar.
+        self._cbs_attr_post_init.update({
+            ai.WEEK_PROFILE_TABLE_ACTIVE: lambda: self.__link_days(ai.WEEK_PROFILE_TABLE_ACTIVE, ai.DAY_PROFILE_TABLE_ACTIVE),
+            ai.WEEK_PROFILE_TABLE_PASSIVE: lambda: self.__link_days(ai.WEEK_PROFILE_TABLE_PASSIVE, ai.DAY_PROFILE_TABLE_PASSIVE),
+            ai.SEASON_PROFILE_ACTIVE: lambda: self.__link_weeks(ai.SEASON_PROFILE_ACTIVE, ai.WEEK_PROFILE_TABLE_ACTIVE),
+            ai.SEASON_PROFILE_PASSIVE: lambda: self.__link_weeks(ai.SEASON_PROFILE_PASSIVE, ai.WEEK_PROFILE_TABLE_PASSIVE)})
         self.set_attr(ai.DAY_PROFILE_TABLE_ACTIVE, None)
         self.set_attr(ai.WEEK_PROFILE_TABLE_ACTIVE, None)
         self.set_attr(ai.SEASON_PROFILE_ACTIVE, None)
@@ -146,10 +151,13 @@ class ActivityCalendar(ic.COSEMInterfaceClasses):
         self.set_attr(ai.WEEK_PROFILE_TABLE_PASSIVE, None)
         self.set_attr(ai.SEASON_PROFILE_PASSIVE, None)
 
-        self.week_profile_table_active.cb_get_day_ids = self.day_profile_table_active.get_day_ids
-        self.week_profile_table_passive.cb_get_day_ids = self.day_profile_table_passive.get_day_ids
-        self.season_profile_active.cb_get_week_profile_names = self.week_profile_table_active.get_week_profile_names
-        self.season_profile_passive.cb_get_week_profile_names = self.week_profile_table_passive.get_week_profile_names
+    def __link_days(self, weeks: int, days: int):
+        """week table takes identifiers from the present day table"""
+        self.get_attr(weeks).cb_get_day_ids = lambda: () if (table := self.get_attr(days)) is None else table.get_day_ids()
+
+    def __link_weeks(self, seasons: int, weeks: int):
+        """season table takes names from the present week table"""
+        self.get_attr(seasons).cb_get_week_profile_names = lambda: () if (table := self.get_attr(weeks)) is None else table.get_week_profile_names()
 
     @property
     def calendar_name_active(self) -> cdt.OctetString:
-- 
2.43.0


From 2fe234e943a1b006b7fc96c546f6ebdfeca274cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 104/159] fix: capture objects before sort object of a profile
 are EmptyObj instead of AttributeError

---
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 6d90b21..c0a912b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -146,7 +146,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
     def __create_buffer_struct_type(self):
         """ TODO: more refactoring !!! """
         # rename CaptureObjectDefinition's and adding object if it absense in collection
-        if self.buffer.selective_access is None:
+        if self.buffer.selective_access is None and self.sort_object is not None:
             self.__create_selective_access_descriptor()
         if self.capture_objects is None:
             raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
-- 
2.43.0


From 37f0038b54a43ad8bc03e33a73ab69b5f65645eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:14 +0000
Subject: [PATCH 105/159] fix: sort object of another class is NoObject instead
 of UnboundLocalError

---
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index c0a912b..b513acb 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -195,7 +195,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if sort_obj.CLASS_ID.contents == self.sort_object.class_id.contents:
             value_type: Type[cdt.CommonDataType] = sort_obj.get_attr_data_type(int(self.sort_object.attribute_index))
         else:
-            exc.NoObject(F"got {self.sort_object.class_id=}, expected {sort_obj.CLASS_ID=} from collection")
+            raise exc.NoObject(F"got {self.sort_object.class_id=}, expected {sort_obj.CLASS_ID=} from collection")
 
         class RangeDescriptor(cdt.Structure):
             # cb_preset = TODO: make check 'selected_values' from self.capture_objects or
-- 
2.43.0


From b0181f17678752a02989d1b968313aa5b42fe6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:59 +0000
Subject: [PATCH 106/159] fix: buffer of a profile without capture objects is
 EmptyObj, copy of collection skips it

---
 src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index b513acb..791d08f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -149,7 +149,7 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         if self.buffer.selective_access is None and self.sort_object is not None:
             self.__create_selective_access_descriptor()
         if self.capture_objects is None:
-            raise ValueError(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
+            raise exc.EmptyObj(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
             obj = self.collection.add_if_missing(class_id=ut.CosemClassId.from_contents(el_value.class_id.contents),
-- 
2.43.0


From a778f1b13c6f3559b1a6df4eb8ab57b22948fde5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 107/159] fix: descriptor with selection has usage flag of the
 optional access selection

---
 src/DLMS_SPODES/types/useful_types.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index 12c86ab..b546d9e 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -976,6 +976,11 @@ class CosemAttributeDescriptorWithSelection(Sequence):
     cosem_attribute_descriptor: CosemAttributeDescriptor
     access_selection: SelectiveAccessDescriptor
 
+    @property
+    def contents(self) -> bytes:
+        """access-selection is OPTIONAL, its presence is given by the usage flag"""
+        return self.cosem_attribute_descriptor.contents + b'\x01' + self.access_selection.contents
+
 
 @dataclass
 class CosemMethodDescriptor(Sequence):
-- 
2.43.0


From 5f5887c8f8a4f40d3f485d6fa82be76b82624787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:49 +0000
Subject: [PATCH 108/159] fix: rejected set keeps the elements and type of an
 array which makes its type before set

---
 src/DLMS_SPODES/types/common_data_types.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index e0faaae..94b28c7 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1149,19 +1149,22 @@ class Array(__Array, ComplexDataType):
         return [el.decode() for el in self.values]
 
     def set(self, value: bytes | bytearray | list | None):
-        if hasattr(self, 'cb_preset'):
-            self.cb_preset(value)
-        new_array = Array(value, type_=self.TYPE)
         old_values = list(self.values)
-        self.clear()
-        if self.TYPE is None and len(new_array) != 0:
-            self.set_type(new_array[0].__class__)
-        else:
-            """TYPE already initiated"""
+        old_type = self.TYPE
         try:
+            if hasattr(self, 'cb_preset'):
+                self.cb_preset(value)
+            new_array = Array(value, type_=self.TYPE)
+            self.clear()
+            if self.TYPE is None and len(new_array) != 0:
+                self.set_type(new_array[0].__class__)
+            else:
+                """TYPE already initiated"""
             for el in new_array:
                 self.append(self.TYPE(el))
         except Exception:
+            if self.TYPE is not old_type:
+                self.__dict__['TYPE'] = old_type
             self.values[:] = old_values
             raise
         if hasattr(self, 'cb_post_set'):
-- 
2.43.0


From 8c312c2ba1127c2119e8b049a9d473deeb7d7c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:30 +0000
Subject: [PATCH 109/159] fix: scalers of a scaler profile follow the columns
 of the selected buffer

---
 .../cosem_interface_classes/profile_generic/ver1.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index 791d08f..fc359c7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -255,8 +255,8 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
                 raise ValueError(F'Buffer of {scaler_profile} is empty')
             else:
                 unit_scaler_profile = scaler_profile.buffer[0]
-                for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
-                    for buffer_capture_object in self.buffer_capture_objects:
+                for buffer_capture_object in self.buffer_capture_objects:
+                    for scaler_unit, capture_object in zip(unit_scaler_profile, self.capture_objects):
                         if capture_object == buffer_capture_object:
                             match scaler_unit:
                                 case cdt.ScalUnitType(): result.append(scaler_unit)
-- 
2.43.0


From c5a5c48dce918a4504b1684e46530703cbc560c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:06 +0000
Subject: [PATCH 110/159] fix: elements of an array with a choice of types can
 be set

---
 src/DLMS_SPODES/types/common_data_types.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 94b28c7..1909042 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1103,10 +1103,12 @@ class Array(__Array, ComplexDataType):
 
     def append(self, element: CommonDataType | None | Any = None):
         """ append element to end """
-        match element:
-            case self.TYPE(): pass
-            case None:        element = self.new_element()
-            case _:           element = self.TYPE(element)
+        if element is None:
+            element = self.new_element()
+        elif not isinstance(self.TYPE, type):  # CHOICE
+            element = self.TYPE(element.encoding if isinstance(element, CommonDataType) else element)
+        elif not isinstance(element, self.TYPE):
+            element = self.TYPE(element)
             # case _:           raise ValueError(F'Types not equal. Must be {self.type.NAME} got {type(element).__name__}')
         if self.unique and element in self.values:  # TODO: remove after full implement append_validate (see below)
             raise ValueError(F"element {element} already exist in {self.__class__.__name__}")
@@ -1161,7 +1163,7 @@ class Array(__Array, ComplexDataType):
             else:
                 """TYPE already initiated"""
             for el in new_array:
-                self.append(self.TYPE(el))
+                self.append(self.TYPE(el) if isinstance(self.TYPE, type) else el)
         except Exception:
             if self.TYPE is not old_type:
                 self.__dict__['TYPE'] = old_type
-- 
2.43.0


From 1e3c57eead5824dbfaf5dd2305819028c1acce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:52 +0000
Subject: [PATCH 111/159] fix: type description of another country than the
 default one is loaded

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 1f48012..63de7f0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -820,14 +820,15 @@ class Collection:
         """ append objects from xml file """
         tree = ET.parse(filename)
         objects = tree.getroot()
-        new = cls()
+        if (country := objects.findtext("country")) is None:
+            new = cls()
+        else:
+            new = cls(country=CountrySpecificIdentifiers(int(country)))
         if objects.tag != TagsName.DEVICE_ROOT.value:
             raise ValueError(F"ERROR: Root tag got {objects.tag}, expected {TagsName.DEVICE_ROOT.value}")
         root_version: AppVersion = AppVersion.from_str(objects.attrib.get('version', '1.0.0'))
         if (dlms_ver := objects.findtext("dlms_ver")) is not None:
             new.set_dlms_ver(int(dlms_ver))
-        if (country := objects.findtext("country")) is not None:
-            new.set_country(CountrySpecificIdentifiers(int(country)))
         if (country_ver := objects.findtext("country_ver")) is not None:
             new.set_country_ver(AppVersion.from_str(country_ver))
         if (manufacturer := objects.findtext("manufacturer")) is not None:
-- 
2.43.0


From c25846f4d2b2a5f19aa9c0069e3d17653843b370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:49 +0000
Subject: [PATCH 112/159] fix: type description is saved without objects which
 are not supported and associations without object list

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 63de7f0..2e51ba0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1267,6 +1267,9 @@ class Collection:
         objs: dict[ln, set[int]] = dict()
         """key: LN, value: not writable and readable container"""
         for ass in filter(lambda it: it.logical_name.e != 0, self.get_objects_by_class_id(classID.ASSOCIATION_LN)):
+            if ass.object_list is None:
+                logger.warning(F"for {ass} object_list not set, skipped")
+                continue
             for obj_el in ass.object_list:
                 if str(obj_el.logical_name) in ("0.0.40.0.0.255", "0.0.42.0.0.255"):
                     """skip LDN and current_association"""
@@ -1281,7 +1284,9 @@ class Collection:
         o2 = list()
         """container sort by AssociationLN first"""
         for ln in objs.keys():
-            obj = self.get_object(ln)
+            if (obj := self.get(ln.contents)) is None:  # not supported, wasn't added by <object_list>
+                logger.warning(F"object with {ln} from object_list is absence in collection, skipped")
+                continue
             if obj.CLASS_ID == classID.ASSOCIATION_LN:
                 o2.insert(0, obj)
             else:
-- 
2.43.0


From 456310d2d5563ef1ccc538e0ecffee4e851bab17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 113/159] fix: forced type of attribute is kept in saved type
 description

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2e51ba0..f5931f3 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1307,7 +1307,10 @@ class Collection:
                     if attr is None:
                         logger.error(F"for {obj} attr: {i} type not set, value is absense")
                     else:
-                        ET.SubElement(object_node, "attr", attrib={"i": str(i)}).text = str(attr.TAG[0])
+                        attrib = {"i": str(i)}
+                        if attr.__class__ not in el.DATA_TYPE.get_types():
+                            attrib["forced"] = "1"  # as it was got from description
+                        ET.SubElement(object_node, "attr", attrib=attrib).text = str(attr.TAG[0])
                 else:
                     logger.info(F"for {obj} attr: {i} value not need. skipped")
             if len(object_node) == 0:
-- 
2.43.0


From 78be7d410b73c7fb3c48b3de56e1eb360ded1ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 114/159] fix: settings saved by to_xml2 are restored by
 from_xml2

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index f5931f3..dc06372 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1114,7 +1114,7 @@ class Collection:
                         raise ValueError(F"got object with {ln=} not find in collection. Abort attribute setting")
                     else:
                         new_object = self.get_object(logical_name)
-                        for attr in obj.findall("attr"):
+                        for attr in filter(lambda it: it.tag in ("attr", "attribute"), obj):
                             index: int = int(attr.attrib.get("index"))
                             try:
                                 new_object.set_attr(index, bytes.fromhex(attr.text))
-- 
2.43.0


From c9e21629263b49ba8b730341abf72a9f08994a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 115/159] fix: settings of a collection from library are saved,
 its version is the collection version

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index dc06372..25c23ff 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1227,7 +1227,7 @@ class Collection:
         col = get(
             m=self.manufacturer,
             t=self.server_type,
-            ver=self.server_ver[0])
+            ver=self.server_ver.get(0, self.collection_ver))
         is_empty: bool = True
         for desc in col.getASSOCIATION(association_id).object_list:
             obj = self.get_object(desc)
-- 
2.43.0


From e2df02a93cc40798a110a01d0b96d6b7de73b12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:32 +0000
Subject: [PATCH 116/159] fix: settings are saved by rights of the given
 association, absent values are skipped

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 25c23ff..b4ff03f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1237,8 +1237,10 @@ class Collection:
                     """skip ln"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
-                elif not col.is_writable(obj.logical_name, i, 3):
+                elif not col.is_writable(obj.logical_name, i, association_id):
                     """skip not writable"""
+                elif attr is None:
+                    """skip absent value"""
                 elif col.get_object(obj.logical_name).get_attr(i) == attr:
                     """skip not changed attr value"""
                 elif isinstance(attr, cdt.Array) and len(attr) == 0:
-- 
2.43.0


From bfff11cde4088a05682763513a3504161ff98a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:52 +0000
Subject: [PATCH 117/159] fix: settings are saved if association has no access
 right for some attribute

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index b4ff03f..dea3774 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1228,6 +1228,14 @@ class Collection:
             m=self.manufacturer,
             t=self.server_type,
             ver=self.server_ver.get(0, self.collection_ver))
+
+        def is_writable(ln: cst.LogicalName, index: int) -> bool:
+            try:
+                return col.is_writable(ln, index, association_id)
+            except ValueError:
+                """absence in object_list of association"""
+                return False
+
         is_empty: bool = True
         for desc in col.getASSOCIATION(association_id).object_list:
             obj = self.get_object(desc)
@@ -1237,7 +1245,7 @@ class Collection:
                     """skip ln"""
                 elif obj.get_attr_element(i).classifier == ic.Classifier.DYNAMIC:
                     """skip DYNAMIC attributes"""
-                elif not col.is_writable(obj.logical_name, i, association_id):
+                elif not is_writable(obj.logical_name, i):
                     """skip not writable"""
                 elif attr is None:
                     """skip absent value"""
-- 
2.43.0


From a3b3f67a6dbbe23f4926e8e3c61804aa56650bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:43 +0000
Subject: [PATCH 118/159] fix: template of collections from library has their
 versions, so that they are loaded

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index dea3774..d055eb2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1896,9 +1896,9 @@ def get_base_template_xml_element(collections: list[Collection], root_tag: str =
         manufacture_node.text = col.manufacturer.decode("utf-8")
         server_type_node = ET.SubElement(manufacture_node, 'server_type')
         server_type_node.text = col.server_type.encoding.hex()
-        for ver in col.server_ver:
+        for ver, value in (col.server_ver or {0: col.collection_ver}).items():
             server_ver_node = ET.SubElement(server_type_node, 'server_ver', attrib={"instance": str(ver)})
-            server_ver_node.text = str(col.server_ver[ver])
+            server_ver_node.text = str(value)
     return objects
 
 
-- 
2.43.0


From 8c5ca0c5fa533be3fb15365c0049dfc19e6af17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 119/159] fix: template keeps the values behind an empty one

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d055eb2..d069c4a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1188,7 +1188,7 @@ class Collection:
                                     while stack:
                                         node, name, value_it = stack[-1]
                                         value = next(value_it, None)
-                                        if value:
+                                        if value is not None:
                                             if not isinstance(name, str):
                                                 name = next(name).NAME
                                             if isinstance(value, cdt.Array):
@@ -1938,7 +1938,7 @@ def to_xml4(collections: list[Collection],
                             while stack:
                                 node, name, value_it = stack[-1]
                                 value = next(value_it, None)
-                                if value:
+                                if value is not None:
                                     if not isinstance(name, str):
                                         name = next(name).NAME
                                     if isinstance(value, cdt.Array):
-- 
2.43.0


From f59027cc7b5c9b77bb229fb02a44f24fc50c6bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 120/159] fix: verified mark of a template is read from where
 it is written

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d069c4a..ef1201a 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2039,7 +2039,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
-    return cols, used, bool(int(objects.findtext("verified", default="0")))
+    return cols, used, bool(int(objects.attrib.get("verified", objects.findtext("verified", default="0"))))
 
 
 if config is not None:
-- 
2.43.0


From b65ae402b4146ed64978ae126eec8f4efd45adac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:52 +0000
Subject: [PATCH 121/159] fix: used attributes of one object from several
 collections of a template are joined

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index ef1201a..de2e75b 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2004,7 +2004,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                         logger.warning(F"got object with {ln=} not find in collection: {col}")
                     else:
                         objs.append(col.get_object(logical_name))
-                used[logical_name] = set()
+                used.setdefault(logical_name, set())
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-- 
2.43.0


From e5da1f9ded7d27a0658e89c4f38c81d2b1889f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:31 +0000
Subject: [PATCH 122/159] fix: array which became empty is saved with settings

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index de2e75b..d07e409 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -1251,8 +1251,8 @@ class Collection:
                     """skip absent value"""
                 elif col.get_object(obj.logical_name).get_attr(i) == attr:
                     """skip not changed attr value"""
-                elif isinstance(attr, cdt.Array) and len(attr) == 0:
-                    """skip empty arrays"""
+                elif isinstance(attr, cdt.Array) and len(attr) == 0 and not col.get_object(obj.logical_name).get_attr(i):
+                    """skip empty arrays, if origin collection has no elements too"""
                 else:
                     is_empty = False
                     if not object_node:
-- 
2.43.0


From 4692bb631f90ff80f55eb066e2f85b27624e0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 123/159] fix: flags of high octet of power quality are
 reported

---
 src/DLMS_SPODES/cosem_interface_classes/events.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/events.py b/src/DLMS_SPODES/cosem_interface_classes/events.py
index 45f3498..323b5fb 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/events.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/events.py
@@ -9,7 +9,7 @@ match get_current_language():
 class FlagEvents(dict):
     """ special class for flag events indication """
     def get_report(self, value: int) -> str:
-        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(8)))))+F"({value})"
+        return ". ".join(filter(lambda it_: it_ is not None, map(lambda it: self.get(2 ** it, F"unknown bit: {it}"), filter(lambda it: value & 2 ** it, range(16)))))+F"({value})"
 
 
 class Events(dict):
-- 
2.43.0


From c085f4a7440aaae8a33902e7700f52f26d6c0772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 124/159] fix: interface of communication port is replaced, not
 joined with the previous one

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 3403967..210bd10 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -118,7 +118,7 @@ class ChannelNumberValue(cdt.Unsigned):
 
     @interface.setter
     def interface(self, value: enu.Interface):
-        self.set((int(self) & 0b0001_1111) | (value << 3))
+        self.set((int(self) & 0b0000_0111) | (value << 3))
 
     def get_report(self, with_unit: bool = True) -> str:
         return F"Номер канала связи: {self.channel.name}, Тип интерфейса: {self.interface.name}"
-- 
2.43.0


From c23ec83e83fefdc5329befd5d24172cee78f40f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 125/159] fix: report of object isn't cut at zero or empty
 value

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index e659574..0aec4f2 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -32,7 +32,7 @@ def get_obj_report(
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
                 value = next(value_it, None)
-                if value:
+                if value is not None:
                     if not isinstance(name, str):
                         name = next(name).NAME
                     if isinstance(value, cdt.Array):
-- 
2.43.0


From 289e85d1efd35f5a9eee3d39e9e0ae1cd5d56906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:03 +0000
Subject: [PATCH 126/159] fix: members of structure attribute are named in
 report of object

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index 0aec4f2..f71356f 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -27,7 +27,7 @@ def get_obj_report(
             ret += F"  {obj.get_attr_element(i)}: {value}\n"
         elif isinstance(value, cdt.ComplexDataType):
             ret += F"  [{obj.get_attr_element(i)}]\n"
-            stack: list = [("", iter(value))]
+            stack: list = [(iter(value.ELEMENTS) if isinstance(value, cdt.Structure) else "", iter(value))]
             while stack:
                 name, value_it = stack[-1]
                 indent = F"{' '*(len(stack) + 1)}"
-- 
2.43.0


From c4707df1f58ca0ac16daf393936f9795eb6c3087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:17 +0000
Subject: [PATCH 127/159] fix: report of device ID which is a number

---
 src/DLMS_SPODES/cosem_interface_classes/reports.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/reports.py b/src/DLMS_SPODES/cosem_interface_classes/reports.py
index f71356f..c7fcc01 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/reports.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/reports.py
@@ -18,7 +18,7 @@ def get_obj_report(
         value = obj.get_attr(i)
         if isinstance(value, cdt.SimpleDataType):
             match obj, i:
-                case collection.impl.data.DLMSDeviceIDObject(), 2: value = value.to_str()
+                case collection.impl.data.DLMSDeviceIDObject(), 2 if isinstance(value, (cdt.OctetString, cdt.VisibleString)): value = value.to_str()
                 case _: pass
             if isinstance(value, cdt.OctetString):
                 pass
-- 
2.43.0


From db8196235a1f1b9eae05ceca42fe2fc21513478b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 128/159] fix: new special day may be inserted, not only the
 replacement of an existing one

---
 src/DLMS_SPODES/cosem_interface_classes/special_days_table.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
index 51a6fbf..287a9bf 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/special_days_table.py
@@ -88,7 +88,6 @@ class SpecialDaysTable(ic.COSEMInterfaceClasses):
     def __set_delete(self):
         try:
             self.delete.register_cb_preset(self.entries.validate_exist_index)
-            self.insert.index.register_cb_preset(self.entries.validate_exist_index)
         except KeyError:  # At init time
             print('set delete NO:')
 
-- 
2.43.0


From a83aa7b5eef44febc80984e2cd87dbc7def45215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:07 +0000
Subject: [PATCH 129/159] fix: image isn't divided endlessly with block size 0

---
 src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
index 08765f1..1e7e7bd 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/image_transfer/ver0.py
@@ -96,6 +96,8 @@ class ImageTransfer(ic.COSEMInterfaceClasses):
     def set_image_for_update(self, value: bytes, identifier: bytearray):
         """ set to image_for_update from bytes and set to first block if identifier is new """
         block_size: int = self.image_block_size.decode()
+        if block_size == 0:
+            raise ValueError(F"image can't be divided to blocks with size 0")
         self.clear_image()
         while len(value) != 0:
             self.__blocks_for_update.append(bytearray(value[:block_size]))
-- 
2.43.0


From d81a684336f4316707c499824b3e6d6878576bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:04 +0000
Subject: [PATCH 130/159] fix: wrong HDLC negotiation changes nothing in HDLC
 setup

---
 .../iec_hdlc_setup/ver1.py                       | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index e16cf1c..ee85875 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -79,18 +79,24 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
         """ negotiation from client """
         if info[:2] == b'\x81\x80':
             info = info.removeprefix(b'\x81\x80')
+            if len(info) == 0:
+                raise ValueError('HDLS negotiation is without length')
             length, info = info[0], info[1:]
             if length == len(info):
+                new_values = dict()
                 while len(info) != 0:
+                    if len(info) < 2 or len(info) < info[1] + 2:
+                        raise ValueError(F'HDLS negotiation parameter is cut: {info.hex(" ")}')
                     tag, value_length, info = info[:1], info[1], info[2:]
                     value, info = info[:value_length], info[value_length:]
                     match tag:
-                        case b'\x05': self.set_attr(5, cdt.LongUnsigned(int.from_bytes(value, 'big')))
-                                      # self.max_info_field_length_transmit.contents = (bytes(2)+value)[-2:]
-                        case b'\x06': self.set_attr(6, cdt.LongUnsigned(int.from_bytes(value, 'big')))
-                        case b'\x07': self.set_attr(3, cdt.Unsigned(int.from_bytes(value, 'big')))
-                        case b'\x08': self.set_attr(4, cdt.Unsigned(int.from_bytes(value, 'big')))
+                        case b'\x05': new_values[5] = cdt.LongUnsigned(int.from_bytes(value, 'big'))
+                        case b'\x06': new_values[6] = cdt.LongUnsigned(int.from_bytes(value, 'big'))
+                        case b'\x07': new_values[3] = cdt.Unsigned(int.from_bytes(value, 'big'))
+                        case b'\x08': new_values[4] = cdt.Unsigned(int.from_bytes(value, 'big'))
                         case _:       raise ValueError(F'Invalid UA response. Got {tag.hex(" ")} from supported 05, 06, 07, 08')
+                for i, value in new_values.items():  # only if whole negotiation is right
+                    self.set_attr(i, value)
             else:
                 raise ValueError(F'HDLS negotiation length wrong, must be {length}, got {len(info)}')
         elif len(info) == 0:
-- 
2.43.0


From cbf2092b2b173330e100ae36dc590a1274b08ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:22 +0000
Subject: [PATCH 131/159] fix: rejected set of a structure member leaves other
 members as they were

---
 src/DLMS_SPODES/types/common_data_types.py | 27 ++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 1909042..90c11c1 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1188,6 +1188,24 @@ class StructElement:
             return self.NAME
 
 
+def _get_state(value: CommonDataType) -> list | dict:
+    """ content of value with content of its elements, for return it back """
+    if isinstance(value, ComplexDataType):
+        return [(el, _get_state(el)) for el in value.values]
+    return dict(value.__dict__)
+
+
+def _set_state(value: CommonDataType, state: list | dict):
+    """ return content back without callbacks """
+    if isinstance(value, ComplexDataType):
+        value.__dict__['values'] = type(value.values)(el for el, _ in state)
+        for el, el_state in state:
+            _set_state(el, el_state)
+    else:
+        value.__dict__.clear()
+        value.__dict__.update(state)
+
+
 class Structure(ComplexDataType):
     """ The elements of the structure are defined in the Attribute or Method description section of a COSEM IC specification """
     TAG = TAG(b'\x02')
@@ -1328,8 +1346,13 @@ class Structure(ComplexDataType):
         for old_el, new_el in zip(self.values, new):
             if old_el.TAG != new_el.TAG:
                 raise ValueError(F"type got {new_el.TAG}, expected {old_el.TAG}")
-        for index, el_value in enumerate(new):
-            self[index].set(el_value)
+        old = _get_state(self)
+        try:
+            for index, el_value in enumerate(new):
+                self[index].set(el_value)
+        except Exception:
+            _set_state(self, old)
+            raise
 
     @property
     def contents(self) -> bytes:
-- 
2.43.0


From 108c54ac097061031443e0c2ae2dec3322ef557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:46 +0000
Subject: [PATCH 132/159] fix: structure without declared members is made from
 another structure

---
 src/DLMS_SPODES/types/common_data_types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 90c11c1..1d428b3 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1226,6 +1226,7 @@ class Structure(ComplexDataType):
                 for el in self.ELEMENTS:
                     self.values.append(el.TYPE())
             case bytearray():              self.from_content(bytes(value))
+            case Structure() if not hasattr(self, "ELEMENTS"): self.from_bytes(value.encoding)
             case Structure():              self.from_content(value.contents)
             # case Structure():              self.__from_sequence(value)
             case _:                        raise ValueError(F'for {self.__class__.__name__} "{value=}" not supported')
-- 
2.43.0


From c05ec5db59293c3f8c5549f9ca1d8aa97bbd02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 133/159] fix: key information of push setup has a value of its
 options by default and from a sequence

---
 src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
index 6ddf4b2..fccf49c 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/push_setup/ver2.py
@@ -66,7 +66,7 @@ class ConfirmationParameters(cdt.Structure):
 class KeyInfoElement(choices.StructureMixin, cdt.Structure):
     """Override several methods of cdt.Structure. It limited Structure."""
     key_info_type: enums.KeyInfoType
-    key_info_options: choices.KeyInfoOptions
+    key_info_options: choices.key_info_options
 
 
 class ProtectionOptions(cdt.Structure):
-- 
2.43.0


From 51b94bcad3e5173ecc05ae7beb8131ba56ec1c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 134/159] fix: authentication mechanisms other than HLS 2 are
 accepted with a plain secret

---
 .../cosem_interface_classes/association_ln/ver0.py           | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index e47d06a..84a9d87 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -367,11 +367,10 @@ class AssociationLN(ic.COSEMInterfaceClasses):
     def __init_secret(self):
         """ before initiating secret need knowledge what kind of mechanism ID """
         match self.authentication_mechanism_name.mechanism_id_element, self.LLS_secret:
-            case mechanism_id.NONE | mechanism_id.LOW, LLCSecret(): """keep secret value"""
-            case mechanism_id.NONE | mechanism_id.LOW, _:           self.set_attr_link(7, LLCSecret())
             case mechanism_id.HIGH, LLCSecretHigh():                          """keep secret value"""
             case mechanism_id.HIGH, _:                                        self.set_attr_link(7, LLCSecretHigh())
-            case unknown, _:                                                            raise ValueError(F'Not support Secret with {unknown}')
+            case _, LLCSecret():                                              """keep secret value"""
+            case _, _:                                                        self.set_attr_link(7, LLCSecret())
 
     def __check_dlms_version_with_collection(self):
         self.collection.set_dlms_ver(int(self.xDLMS_context_info.dlms_version_number))
-- 
2.43.0


From 06e4d61368e6cb0bdce6b64f800bd1d210cd42d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:44 +0000
Subject: [PATCH 135/159] fix: identifier of firmware that is no text is no
 version, it isn't an error of decoding

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index 210bd10..fd947f7 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -45,7 +45,7 @@ class ActiveFirmwareId(Data):
 
     def __handle_value(self):
         """check new version for more than current collection_version"""
-        version = AppVersion.from_str(self.value.contents.decode("utf-8"))
+        version = AppVersion.from_str(self.value.contents.decode("utf-8", errors="replace"))
         if (collection_ver := self.collection.server_ver.get(self.logical_name.b)) is not None:
             if version > collection_ver:
                 raise exc.NeedUpdate(F"got {version}, but used {collection_ver}. need update server configuration")
-- 
2.43.0


From 456263cd2190855fa404c781c496048a240eda84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:29 +0000
Subject: [PATCH 136/159] fix: buffer of display readout without capture
 objects is reported as empty object

---
 .../cosem_interface_classes/implementations/profile_generic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
index 6c163a9..dade4b1 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/profile_generic.py
@@ -1,6 +1,7 @@
 from ..profile_generic import ver1
 from ...types.implementations import structs, enums
 from ...types import ut, cdt
+from ... import exceptions as exc
 
 
 class SPODES3ScalesProfile(ver1.ProfileGeneric):
@@ -58,6 +59,8 @@ class SPODES3DisplayReadout(ver1.ProfileGeneric):
 
     def __create_buffer_struct_type(self):
         """ TODO: more refactoring !!! """
+        if self.capture_objects is None:
+            raise exc.EmptyObj(F"{self}: create buffer Struct type, not set <capture_object> attribute. Need initiate <capture_objects> before")
         # rename CaptureObjectDefinition's and adding object if it absense in collection
         for el_value in self.capture_objects:
             el_value: structs.CaptureObjectDefinition
-- 
2.43.0


From cee4a97319b32a2aee59f99f6f1d3dc0fda1fa60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:30 +0000
Subject: [PATCH 137/159] fix: attribute of settings or template with a type
 out of its choice is skipped as other wrong values

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index d07e409..4a9f9a3 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -801,7 +801,7 @@ class Collection:
                         except exc.NoObject as e:
                             logger.error(F"Can't fill {new_object} attr: {index}. Skip. {e}.")
                             break
-                        except exc.ITEApplication as e:
+                        except (exc.ITEApplication, ut.UserfulTypesException) as e:
                             logger.error(F"Can't fill {new_object} attr: {index}. {e}")
                         except IndexError:
                             logger.error(F'Object "{new_object}" not has attr: {index}')
@@ -1061,7 +1061,7 @@ class Collection:
                             except exc.NoObject as e:
                                 logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. Skip. {e}.")
                                 break
-                            except exc.ITEApplication as e:
+                            except (exc.ITEApplication, ut.UserfulTypesException) as e:
                                 logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. {e}")
                             except IndexError:
                                 logger.error(F'Object "{new_object}" not has attr: {index}')
@@ -1096,7 +1096,7 @@ class Collection:
                         except exc.NoObject as e:
                             logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. Skip. {e}.")
                             break
-                        except exc.ITEApplication as e:
+                        except (exc.ITEApplication, ut.UserfulTypesException) as e:
                             logger.error(F"Can't fill {new_object} attr: {indexes[-1]}. {e}")
                         except IndexError:
                             logger.error(F'Object "{new_object}" not has attr: {index}')
@@ -1121,7 +1121,7 @@ class Collection:
                             except exc.NoObject as e:
                                 logger.error(F"Can't fill {new_object} attr: {index}. Skip. {e}.")
                                 break
-                            except exc.ITEApplication as e:
+                            except (exc.ITEApplication, ut.UserfulTypesException) as e:
                                 logger.error(F"Can't fill {new_object} attr: {index}. {e}")
                             except IndexError:
                                 logger.error(F'Object "{new_object}" not has attr: {index}')
@@ -2027,7 +2027,7 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                                         stack.append((v1[-1], iter(v)))
                                 for new_object in objs:
                                     new_object.set_attr(index, v1)
-                    except exc.ITEApplication as e:
+                    except (exc.ITEApplication, ut.UserfulTypesException) as e:
                         logger.error(F"Can't fill {new_object} attr: {index}. {e}")
                     except IndexError:
                         logger.error(F'Object "{new_object}" not has attr: {index}')
-- 
2.43.0


From 7586f643b22a352ed8565a38beaa2bde20fbc0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:03 +0000
Subject: [PATCH 138/159] fix: device which refuses an attribute of a template
 leaves it for the next devices

---
 .../cosem_interface_classes/collection.py     | 61 ++++++++++---------
 1 file changed, 32 insertions(+), 29 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 4a9f9a3..2034f77 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -2008,35 +2008,38 @@ def from_xml4(filename: str) -> tuple[list[Collection], UsedAttributes, bool]:
                 for attr in obj.findall("attr"):
                     index: int = int(attr.attrib.get("index"))
                     used[logical_name].add(index)
-                    try:
-                        match attr.attrib.get("type", "simple"):
-                            case "simple":
-                                for new_object in objs:
-                                    new_object.set_attr(index, attr.text)
-                            case "array" | "struct":
-                                stack = [(list(), iter(attr))]
-                                while stack:
-                                    v1, v2 = stack[-1]
-                                    v = next(v2, None)
-                                    if v is None:
-                                        stack.pop()
-                                    elif v.tag == "simple":
-                                        v1.append(v.text)
-                                    else:
-                                        v1.append(list())
-                                        stack.append((v1[-1], iter(v)))
-                                for new_object in objs:
-                                    new_object.set_attr(index, v1)
-                    except (exc.ITEApplication, ut.UserfulTypesException) as e:
-                        logger.error(F"Can't fill {new_object} attr: {index}. {e}")
-                    except IndexError:
-                        logger.error(F'Object "{new_object}" not has attr: {index}')
-                    except TypeError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
-                    except ValueError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
-                    except AttributeError as e:
-                        logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
+                    match attr.attrib.get("type", "simple"):
+                        case "simple":
+                            value = attr.text
+                        case "array" | "struct":
+                            value = list()
+                            stack = [(value, iter(attr))]
+                            while stack:
+                                v1, v2 = stack[-1]
+                                v = next(v2, None)
+                                if v is None:
+                                    stack.pop()
+                                elif v.tag == "simple":
+                                    v1.append(v.text)
+                                else:
+                                    v1.append(list())
+                                    stack.append((v1[-1], iter(v)))
+                        case _ as type_:
+                            logger.error(F"unknown {type_=} of attr: {index} for {logical_name}. Skip")
+                            continue
+                    for new_object in objs:
+                        try:
+                            new_object.set_attr(index, value)
+                        except (exc.ITEApplication, ut.UserfulTypesException) as e:
+                            logger.error(F"Can't fill {new_object} attr: {index}. {e}")
+                        except IndexError:
+                            logger.error(F'Object "{new_object}" not has attr: {index}')
+                        except TypeError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not write, encoding wrong : {e}')
+                        except ValueError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
+                        except AttributeError as e:
+                            logger.error(F'Object {new_object} attr:{index} do not fill: {e}')
         case _ as error:
             raise exc.VersionError(error, additional='Xml')
     return cols, used, bool(int(objects.attrib.get("verified", objects.findtext("verified", default="0"))))
-- 
2.43.0


From 5228c1b6603d0b33f9d2b7d9f060f6a4c7dd0205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:50 +0000
Subject: [PATCH 139/159] fix: empty text and text of one underscore are
 checked as any other typed text

---
 src/DLMS_SPODES/types/common_data_types.py   | 4 ++--
 src/DLMS_SPODES/types/cosem_service_types.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 1d428b3..a4f0d67 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -636,7 +636,7 @@ class Float(ABC):
 
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         # adding '0' for available set service symbols
-        if value[-1] in '.-+exp':
+        if value and value[-1] in '.-+exp':
             value += '0'
         return super().validate_from(value, cursor_position)
 
@@ -708,7 +708,7 @@ class __DateTime(ABC):
     def validate_from(self, value: str, cursor_position: int) -> tuple[str, int]:
         while len(value) > cursor_position and value[cursor_position] == '_':
             value = value[:cursor_position] + value[cursor_position+1:]
-        while value[cursor_position-2] == '_':
+        while cursor_position >= 2 and value[cursor_position-2] == '_':
             value = value[:cursor_position-2] + value[cursor_position-1:]
             cursor_position -= 1
         try:
diff --git a/src/DLMS_SPODES/types/cosem_service_types.py b/src/DLMS_SPODES/types/cosem_service_types.py
index a89bd22..97ab0fb 100644
--- a/src/DLMS_SPODES/types/cosem_service_types.py
+++ b/src/DLMS_SPODES/types/cosem_service_types.py
@@ -49,7 +49,7 @@ class LogicalName(cdt.OctetString, size=6):
             possible = type(self)(value)
             return value, cursor_position  # TODO: wrong position ???
         except ValueError:
-            with_separator = F'{value[:-1]}.{value[-1]}'
+            with_separator = F'{value[:-1]}.{value[-1:]}'
             type(self)(with_separator)  # check possible
             return with_separator, cursor_position
 
-- 
2.43.0


From 6d306a363bb979b52309042d9b7decc6fe873d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:30 +0000
Subject: [PATCH 140/159] fix: collection without manufacturer is copied with a
 logical device name

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 2034f77..6e43dab 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -608,7 +608,8 @@ class Collection:
     def copy(self, ldn: octet_string.LDN = None) -> Self:
         new_collection = Collection(self.__country, ldn=ldn)
         new_collection.set_dlms_ver(self.__dlms_ver)
-        new_collection.set_manufacturer(self.__manufacturer)
+        if self.__manufacturer:  # otherwise it is of the LDN, if any
+            new_collection.set_manufacturer(self.__manufacturer)
         new_collection.set_country_ver(self.__country_ver)
         new_collection.set_collection_ver(self.__collection_ver)
         new_collection.set_server_type(self.__server_type)
-- 
2.43.0


From 19d76ce849a970446542615181fb09a67ba7020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:34 +0000
Subject: [PATCH 141/159] fix: maximum lengths of the information field of HDLC
 setup have 32, 2030 and 128 as minimum, maximum and default

---
 .../cosem_interface_classes/iec_hdlc_setup/ver1.py            | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
index ee85875..3e6a2d6 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/iec_hdlc_setup/ver1.py
@@ -10,8 +10,8 @@ class IECHDLCSetup(ic.COSEMInterfaceClasses):
     A_ELEMENTS = (ic.ICAElement("comm_speed", CommSpeed, 0, 9, 5),
                   ic.ICAElement("windows_size_transmit", cdt.Unsigned, 1, 7, 1),
                   ic.ICAElement("windows_size_receive", cdt.Unsigned, 1, 7, 1),
-                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 128, 32, 2030),
-                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 128, 32, 2030),
+                  ic.ICAElement("max_info_field_length_transmit", cdt.LongUnsigned, 32, 2030, 128),
+                  ic.ICAElement("max_info_field_length_receive", cdt.LongUnsigned, 32, 2030, 128),
                   ic.ICAElement("inter_octet_time_out", cdt.LongUnsigned, 20, 6000, 25),
                   ic.ICAElement("inactivity_time_out", cdt.LongUnsigned, 0, default=120),
                   ic.ICAElement("device_address", cdt.LongUnsigned, 0x0001, 0x3ffd, default=0x10))  # TODO: not according by BlueBook: need default, minimum is other
-- 
2.43.0


From 0d95517e8806f9774fa5e3fe3d030a2dd0d7236d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:01 +0000
Subject: [PATCH 142/159] fix: demand register has the method next_period

---
 .../cosem_interface_classes/demand_register/ver0.py            | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
index fc36cad..5e50338 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/demand_register/ver0.py
@@ -15,7 +15,8 @@ class DemandRegister(ic.COSEMInterfaceClasses):
                   ic.ICAElement("start_time_current", cst.OctetStringDateTime, classifier=ic.Classifier.DYNAMIC),
                   ic.ICAElement("period", cdt.DoubleLongUnsigned, min=1),
                   ic.ICAElement("number_of_periods", cdt.LongUnsigned, min=1, default=1))
-    M_ELEMENTS = ic.ICMElement("reset", integers.Only0),
+    M_ELEMENTS = (ic.ICMElement("reset", integers.Only0),
+                  ic.ICMElement("next_period", integers.Only0))
     scaler_unit_not_settable: bool
 
     @property
-- 
2.43.0


From 3b9f246a5ab2c9c5d9889a3151512704d89e96c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:45 +0000
Subject: [PATCH 143/159] fix: phase rotation control of SPODES 3
 (0.0.96.5.132.255) has its unsigned value

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 6e43dab..6e1b6a8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -487,7 +487,7 @@ __func_map_for_create.update({
     (0, 96, 3, 20): ClassMap({0: impl.arbitrator.SPODES3Arbitrator}),
     (0, 96, 5, 1): ClassMap({0: impl.data.SPODES3PowerQuality1Event}),
     (0, 96, 5, 4): ClassMap({0: impl.data.SPODES3PowerQuality2Event}),
-    (0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
+    (0, 0, 96, 5, 132): ClassMap({0: impl.data.Unsigned}),  # TODO: make according with СПОДЭС3 13.9. Контроль чередования фаз
     (0, 96, 11, 0): ClassMap({0: impl.data.SPODES3VoltageEvent}),
     (0, 96, 11, 1): ClassMap({0: impl.data.SPODES3CurrentEvent}),
     (0, 96, 11, 2): ClassMap({0: impl.data.SPODES3CommutationEvent}),
-- 
2.43.0


From 5a688827f1a90f8bdcd45ea9ba424e2188cf71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:28 +0000
Subject: [PATCH 144/159] fix: default application context name has the country
 name 756, as the object identifier 2.16.756.5.8.1.1

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 84a9d87..8fded96 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -121,7 +121,7 @@ class AssociatedPartnersType(cdt.Structure):
 class ApplicationContextName(cdt.Structure):
     """ In the COSEM environment, it is intended that an application context pre-exists and is referenced by its name during the establishment of an
     application association. This attribute contains the name of the application context for that association."""
-    DEFAULT = (2, 16, 116, 5, 8, 1, 1)
+    DEFAULT = (2, 16, 756, 5, 8, 1, 1)
     joint_iso_ctt_element: cdt.Unsigned
     country_element: cdt.Unsigned
     country_name_element: cdt.LongUnsigned
-- 
2.43.0


From 9719810b30f07dd530b3334ed4e03276294979e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:42 +0000
Subject: [PATCH 145/159] fix: clearing a string of a type with own default or
 own rules gave a value that the type refuses

---
 src/DLMS_SPODES/types/common_data_types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index a4f0d67..80e0166 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -342,7 +342,7 @@ class _String(ABC):
         return self.TAG + encode_length(len(self)) + self.contents
 
     def clear(self):
-        self.__dict__['contents'] = self.DEFAULT
+        self.__dict__['contents'] = self.__class__().contents
 
 
 class FlagMixin(ABC):
-- 
2.43.0


From 9465ce9471a3c4060a68c3a625b2f9827c0beb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:45 +0000
Subject: [PATCH 146/159] fix: SPODES version took a text of two parts that are
 not numbers

---
 src/DLMS_SPODES/cosem_interface_classes/implementations/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
index fd947f7..5d1d477 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/implementations/data.py
@@ -365,7 +365,7 @@ class SPODES3SPODESVersionValue(cdt.OctetString):
     def __init__(self, value="332e30"):
         super(SPODES3SPODESVersionValue, self).__init__(value)
         match AppVersion.from_str(self.contents.decode("utf-8")):
-            case AppVersion(0, 0, 0): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
+            case AppVersion(0, 0, _): raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
             case AppVersion(_, _, None): """valid version"""
             case _: raise ValueError(F"got invalid SPODES VERSION VALUE with: {self}")
 
-- 
2.43.0


From 1617f2b6454020825293715cdd8d4234da043de0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:13 +0000
Subject: [PATCH 147/159] fix: thresholds of a limiter had no scaler and unit
 in a copy, when the limiter goes before the monitored register

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 6e1b6a8..46f3941 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -631,6 +631,7 @@ class Collection:
         else:
             obj_for_set = [obj for el in max_ass.object_list if (obj := self.__container.get(el.logical_name.contents)) is not None]
             ass_id: int = max_ass.logical_name.e
+        obj_for_set.sort(key=lambda it: it.CLASS_ID == classID.LIMITER)  # its thresholds take scaler and unit of the monitored value
         failed: int = 0
         """amount of failed objects in a row"""
         while len(obj_for_set) != 0:
-- 
2.43.0


From 725920caabaf3c7ce8adf0fd29ffdd318e740c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:59 +0000
Subject: [PATCH 148/159] fix: loading a description gave an attribute, that
 has a type already, the number of its type as value

---
 src/DLMS_SPODES/cosem_interface_classes/collection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/collection.py b/src/DLMS_SPODES/cosem_interface_classes/collection.py
index 46f3941..53dea2d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/collection.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/collection.py
@@ -946,7 +946,10 @@ class Collection:
                                 if len(attr.text) <= 2:  # set only type with default value
                                     data_type = new_object.get_attr_element(i).DATA_TYPE
                                     if isinstance(data_type, ut.CHOICE):
-                                        new_object.set_attr(i, int(attr.text))
+                                        if new_object.get_attr(i) is None:
+                                            new_object.set_attr(i, int(attr.text))
+                                        else:
+                                            """not need set"""
                                     elif data_type == int(attr.text):
                                         """ ordering by old"""
                                     else:
-- 
2.43.0


From 670d651b4e4013076202f6fbb065414cb4ed53f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:53 +0000
Subject: [PATCH 149/159] fix: limiter didn't take type, scaler and unit of the
 value when its monitored value was set again

---
 .../cosem_interface_classes/limiter.py         | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/limiter.py b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
index 017835b..f0fae92 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/limiter.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
@@ -62,6 +62,15 @@ class Limiter(ic.COSEMInterfaceClasses):
             4: lambda value: self.__validate_threshold_scaler_unit(4, value),
             5: lambda value: self.__validate_threshold_scaler_unit(5, value)})
 
+    def set_attr(self,
+                 index: int,
+                 value=None,
+                 data_type: cdt.CommonDataType = None):
+        again: bool = index == 2 and self.monitored_value is not None
+        super().set_attr(index, value, data_type)
+        if again:
+            self.__set_threshold_scaler_unit()
+
     @property
     def monitored_value(self) -> structs.ValueDefinition:
         return self.get_attr(2)
@@ -113,10 +122,13 @@ class Limiter(ic.COSEMInterfaceClasses):
             """monitored value"""
             if m_v is not None:
                 for index in (3, 4, 5):
-                    self.set_attr(index, m_v.encoding)
-                    s_v: cdt.CommonDataTypes = self.get_attr(index)
+                    s_v: cdt.CommonDataTypes | None = self.get_attr(index)
                     """set value"""
-                    s_v.clear()
+                    if s_v is None or s_v.TAG != m_v.TAG:  # otherwise threshold is kept, it was set with the same type
+                        self.clear_attr(index)
+                        self.set_attr(index, m_v.encoding)
+                        s_v = self.get_attr(index)
+                        s_v.clear()
                     if self.monitored_value.class_id in (long_unsigneds.ClassIDCDT.REGISTER, long_unsigneds.ClassIDCDT.EXT_REGISTER):
                         s_v.SCALER_UNIT = m_o.scaler_unit
             else:
-- 
2.43.0


From 30dac25afb2f2f518b37c907b74e17148b80f69b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:53 +0000
Subject: [PATCH 150/159] fix: threshold of a limiter kept scaler and unit of
 the former monitored value

---
 src/DLMS_SPODES/cosem_interface_classes/limiter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/limiter.py b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
index f0fae92..3f863a8 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/limiter.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
@@ -131,6 +131,8 @@ class Limiter(ic.COSEMInterfaceClasses):
                         s_v.clear()
                     if self.monitored_value.class_id in (long_unsigneds.ClassIDCDT.REGISTER, long_unsigneds.ClassIDCDT.EXT_REGISTER):
                         s_v.SCALER_UNIT = m_o.scaler_unit
+                    elif isinstance(s_v, (cdt.Digital, cdt.Float)):
+                        s_v.SCALER_UNIT = None
             else:
                 raise exc.EmptyObj(F"monitored_value: {m_o} hasn't value")
         else:
-- 
2.43.0


From 89829dacd3af6c927d1f12d1d57dae153878df12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:53 +0000
Subject: [PATCH 151/159] fix: copy of a collection failed on an attribute that
 got another type from the object it depends on

---
 .../cosem_interface_classes/cosem_interface_class.py            | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
index 92f05d7..93ee17e 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/cosem_interface_class.py
@@ -167,6 +167,8 @@ class COSEMInterfaceClasses(ABC):
             else:
                 if isinstance(arr := self.__attributes[i-1], cdt.Array):
                     arr.set_type(value.TYPE)
+                elif isinstance(el.DATA_TYPE, ut.CHOICE) and arr is not None and arr.TAG != value.TAG:  # got type from another object
+                    self.__attributes[i-1] = None
                 try:
                     self.set_attr(
                         index=i,
-- 
2.43.0


From b167cc5e74e0a4cb03fa5f12afa76fb4789a95a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:53 +0000
Subject: [PATCH 152/159] fix: register monitor kept type of thresholds of the
 former monitored value when another one was set

---
 .../cosem_interface_classes/register_monitor.py          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
index 785d78c..29d8bb5 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/register_monitor.py
@@ -33,6 +33,15 @@ class RegisterMonitor(ic.COSEMInterfaceClasses):
         self.set_attr(2, None)
         self._cbs_attr_post_init.update({3: self.__set_threshold_type})
 
+    def set_attr(self,
+                 index: int,
+                 value=None,
+                 data_type: cdt.CommonDataType = None):
+        again: bool = index == 3 and self.monitored_value is not None
+        super().set_attr(index, value, data_type)
+        if again:
+            self.__set_threshold_type()
+
     @property
     def thresholds(self) -> Thresholds:
         return self.get_attr(2)
-- 
2.43.0


From 9a2cfcaeac89a3b3357344ccb7cf3ab1f8f444fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:52 +0000
Subject: [PATCH 153/159] fix: object list of an association, read again,
 didn't add new objects; another mechanism kept the secret of the former kind

---
 .../association_ln/ver0.py                       | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index 8fded96..cf0ff59 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -298,6 +298,18 @@ class AssociationLN(ic.COSEMInterfaceClasses):
             6: self.__init_secret,
             7: self.__check_mechanism_id_existing})
 
+    def set_attr(self,
+                 index: int,
+                 value=None,
+                 data_type: cdt.CommonDataType = None):
+        again: bool = self.get_attr(index) is not None
+        super().set_attr(index, value, data_type)
+        if again:
+            match index:
+                case 2: self.__add_objects()
+                case 6: self.__init_secret()
+                case _: """nothing depends on it"""
+
     @property
     def object_list(self) -> ObjectListType:
         return self.get_attr(2)
@@ -345,6 +357,9 @@ class AssociationLN(ic.COSEMInterfaceClasses):
     def __set_to_collection(self):
         """add object to collection if it absense"""
         self.object_list.selective_access = SelectiveAccessDescriptor()
+        self.__add_objects()
+
+    def __add_objects(self):
         for obj_list_el in self.object_list:
             obj_list_el: ObjectListElement
             try:
@@ -369,6 +384,7 @@ class AssociationLN(ic.COSEMInterfaceClasses):
         match self.authentication_mechanism_name.mechanism_id_element, self.LLS_secret:
             case mechanism_id.HIGH, LLCSecretHigh():                          """keep secret value"""
             case mechanism_id.HIGH, _:                                        self.set_attr_link(7, LLCSecretHigh())
+            case _, LLCSecretHigh():                                          self.set_attr_link(7, LLCSecret())
             case _, LLCSecret():                                              """keep secret value"""
             case _, _:                                                        self.set_attr_link(7, LLCSecret())
 
-- 
2.43.0


From e3aa595892c415e47f4da5baa6bf99679844cfc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:25 +0000
Subject: [PATCH 154/159] fix: limiter didn't take scaler and unit of another
 monitored value

---
 src/DLMS_SPODES/cosem_interface_classes/limiter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/limiter.py b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
index 3f863a8..753583d 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/limiter.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/limiter.py
@@ -129,10 +129,10 @@ class Limiter(ic.COSEMInterfaceClasses):
                         self.set_attr(index, m_v.encoding)
                         s_v = self.get_attr(index)
                         s_v.clear()
+                    if isinstance(s_v, (cdt.Digital, cdt.Float)):
+                        s_v.SCALER_UNIT = None  # it can be of the former monitored value
                     if self.monitored_value.class_id in (long_unsigneds.ClassIDCDT.REGISTER, long_unsigneds.ClassIDCDT.EXT_REGISTER):
                         s_v.SCALER_UNIT = m_o.scaler_unit
-                    elif isinstance(s_v, (cdt.Digital, cdt.Float)):
-                        s_v.SCALER_UNIT = None
             else:
                 raise exc.EmptyObj(F"monitored_value: {m_o} hasn't value")
         else:
-- 
2.43.0


From b7e1f1653568e7a2902f7b71a13cc6678eca6a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:31 +0000
Subject: [PATCH 155/159] fix: LLCSecretHigh.validate_from without cursor
 position failed on a correct text

---
 src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
index cf0ff59..7de1af9 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/association_ln/ver0.py
@@ -225,7 +225,7 @@ class LLCSecretHigh(LLCSecret):
     def validate_from(self, value: str, cursor_position=None) -> tuple[str, int]:
         try:
             correct = type(self)(value)
-            return str(correct), cursor_position + (len(str(correct))-len(value))
+            return str(correct), (len(value) if cursor_position is None else cursor_position) + (len(str(correct))-len(value))
         except ValueError:
             match self.representation & 0b1:
                 case Representation.HEX:
-- 
2.43.0


From f5a83e452090c1840652247b70334645160e568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:46 +0000
Subject: [PATCH 156/159] fix: object identifiers with a second arc above 39
 had other arcs and octets

---
 src/DLMS_SPODES/types/common_data_types.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/DLMS_SPODES/types/common_data_types.py b/src/DLMS_SPODES/types/common_data_types.py
index 80e0166..3c9bc10 100644
--- a/src/DLMS_SPODES/types/common_data_types.py
+++ b/src/DLMS_SPODES/types/common_data_types.py
@@ -1381,9 +1381,7 @@ class Structure(ComplexDataType):
     def get_a_xdr(self) -> bytes:
         """ use in AssociationLN """
         res = bytearray()
-        res.append(40 * self.values[0].decode() + self.values[1].decode())
-        for i in range(2, len(self.ELEMENTS)):
-            value = self.values[i].decode()
+        for value in (40 * self.values[0].decode() + self.values[1].decode(), *(it.decode() for it in self.values[2:])):
             tmp = list()
             while value != 0 or not tmp:
                 value, tmp1 = divmod(value, 128)
@@ -1416,14 +1414,6 @@ class AXDR(ABC):
                             xdr = pdu[:length]
                             values_in: deque[int] = deque(xdr)
                             values_index = iter(range(len(self.ELEMENTS)))
-                            # ger first two values
-                            two_values = divmod(values_in.popleft(), 40)
-                            # self._set_value(next(values_index), two_values[0])
-                            # self._set_value(next(values_index), two_values[1])
-                            i = next(values_index)
-                            values[i] = self.ELEMENTS[i].TYPE(two_values[0])
-                            i = next(values_index)
-                            values[i] = self.ELEMENTS[i].TYPE(two_values[1])
                             tmp = 0
                             while values_in:
                                 tmp <<= 7
@@ -1433,6 +1423,10 @@ class AXDR(ABC):
                                     tmp += values_in.popleft()
                                     # self._set_value(next(values_index), tmp)
                                     i = next(values_index)
+                                    if i == 0:  # first two values are in one
+                                        values[i] = self.ELEMENTS[i].TYPE(min(tmp // 40, 2))
+                                        tmp -= 40 * min(tmp // 40, 2)
+                                        i = next(values_index)
                                     values[i] = self.ELEMENTS[i].TYPE(tmp)
                                     tmp = 0
                             if None in values or xdr[-1] >= 0b1000_0000:
-- 
2.43.0


From 6ed067147920b03b66a2b5513d96873a84105e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:29 +0000
Subject: [PATCH 157/159] fix: another sort object left the range selection of
 the former one

---
 .../cosem_interface_classes/profile_generic/ver1.py      | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
index fc359c7..cb1cdc0 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/profile_generic/ver1.py
@@ -95,6 +95,15 @@ class ProfileGeneric(ic.COSEMInterfaceClasses):
         self.buffer_capture_objects = self.capture_objects
         """ objects for buffer. Change with access_selection """
 
+    def set_attr(self,
+                 index: int,
+                 value=None,
+                 data_type: cdt.CommonDataType = None):
+        old: bytes | None = self.sort_object.encoding if index == SORT_OBJECT and self.sort_object is not None else None
+        super().set_attr(index, value, data_type)
+        if old is not None and old != self.sort_object.encoding:
+            self.__create_selective_access_descriptor()
+
     @property
     def buffer(self) -> arrays.SelectionAccess:
         return self.get_attr(2)
-- 
2.43.0


From eb434b8d57bde8dc87f3781a4b7fef580b2b5f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:39:50 +0000
Subject: [PATCH 158/159] fix: methods of security setup version 1 behind key
 agreement gave the method before

---
 .../cosem_interface_classes/security_setup/ver1.py    | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
index 98cf732..97a5222 100644
--- a/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
+++ b/src/DLMS_SPODES/cosem_interface_classes/security_setup/ver1.py
@@ -143,14 +143,17 @@ class SecuritySetup(ver0.SecuritySetup):
     def key_agreement(self) -> KeyAgreement:
         return self .get_meth(3)
 
-    def generate_certificate_request(self) -> KeyPair:
+    def generate_key_pair(self) -> KeyPair:
         return self .get_meth(4)
 
-    def import_certificate(self) -> cdt.OctetString:
+    def generate_certificate_request(self) -> KeyPair:
         return self .get_meth(5)
 
-    def export_certificate(self) -> CertificateIdentification:
+    def import_certificate(self) -> cdt.OctetString:
         return self .get_meth(6)
 
-    def remove_certificate(self) -> CertificateIdentification:
+    def export_certificate(self) -> CertificateIdentification:
         return self .get_meth(7)
+
+    def remove_certificate(self) -> CertificateIdentification:
+        return self .get_meth(8)
-- 
2.43.0


From f564dbd119ff6bf44f70205aab302e0782b028c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:47:40 +0000
Subject: [PATCH 159/159] fix: a type derived from enum, time or dont-care of
 Data was put under the tag of the base of that type

---
 src/DLMS_SPODES/types/cosem_pdu.py    | 10 ++++------
 src/DLMS_SPODES/types/useful_types.py | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/DLMS_SPODES/types/cosem_pdu.py b/src/DLMS_SPODES/types/cosem_pdu.py
index 6ef1b34..bd4443f 100644
--- a/src/DLMS_SPODES/types/cosem_pdu.py
+++ b/src/DLMS_SPODES/types/cosem_pdu.py
@@ -617,12 +617,10 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
-        for el in cls.ELEMENTS:
-            if value is el.type:
-                return el
-        for el in cls.ELEMENTS:
-            if issubclass(value, el.type):
-                return el
+        for type_ in value.__mro__:  # from the type itself to the furthest of its base types
+            for el in cls.ELEMENTS:
+                if type_ is el.type:
+                    return el
         else:
             raise ValueError(F"not find type: {value} in {cls.__name__}")
 
diff --git a/src/DLMS_SPODES/types/useful_types.py b/src/DLMS_SPODES/types/useful_types.py
index b546d9e..7ffadde 100644
--- a/src/DLMS_SPODES/types/useful_types.py
+++ b/src/DLMS_SPODES/types/useful_types.py
@@ -349,12 +349,10 @@ class Choice(UT):
 
     @classmethod
     def _get_element_by_type(cls, value: Type[UT]) -> ChoiceElement:
-        for el in cls.ELEMENTS:
-            if value is el.type:
-                return el
-        for el in cls.ELEMENTS:
-            if issubclass(value, el.type):
-                return el
+        for type_ in value.__mro__:  # from the type itself to the furthest of its base types
+            for el in cls.ELEMENTS:
+                if type_ is el.type:
+                    return el
         else:
             raise ValueError(F"not find type: {value} in {cls.__name__}")
 
-- 
2.43.0

