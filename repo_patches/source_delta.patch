From 30a436c96a1588fd2b4e78ad15b690024b081a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:39 +0000
Subject: [PATCH 01/65] fix: record regular expressions in the object log when
 encoding

V8 and our own decoder assign a reference id to RegExp values, but the
encoder did not, so references written after a RegExp were off by one.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..180867d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -942,7 +943,9 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(
+            JSRegExp.from_python_pattern(value), identity=value
+        )
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From 0b81687265121cecd217de0b3f60c86a87cdd14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:06 +0000
Subject: [PATCH 02/65] fix: record errors without a cause in the object log
 when encoding

Only errors with a cause were given a reference id, so references written
after any other error pointed at the wrong object.
---
 src/v8serialize/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 180867d..c22d21d 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -421,6 +421,8 @@ class WritableTagStream:
                     "cause without CircularErrorCause enabled",
                 ):
                     ctx.encode_object(cause)
+        else:
+            self.objects.record_reference(identity)
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-- 
2.43.0


From b8d1b2b3a6687ad14d6a1fbd189329a698a46704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:35 +0000
Subject: [PATCH 03/65] fix: record shared and transferred array buffers when
 decoding

The encoder and V8 assign them a reference id, the decoder did not, so
later references resolved to the wrong object.
---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..9e4a910 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -766,7 +766,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -777,7 +779,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From a599f30e2fb026d559e3589e99b6b1cc7eb4c318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:53 +0000
Subject: [PATCH 04/65] fix: give host objects a reference id when encoding and
 decoding

V8 assigns an id to host objects (such as the typed arrays and Buffers
written by Node.js), so references following one resolved to the wrong
object or failed.
---
 src/v8serialize/_references.py |  5 ++++-
 src/v8serialize/decode.py      | 19 +++++++++++++++----
 src/v8serialize/encode.py      |  7 ++++++-
 3 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 63caeb2..5b5e0ab 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -86,12 +86,15 @@ class SerializedObjectLog:
 
     def get_object(self, serialized_id: SerializedId) -> object:
         try:
-            return self._object_by_serialized_id[serialized_id]
+            value = self._object_by_serialized_id[serialized_id]
         except IndexError:
             raise SerializedIdOutOfRangeV8SerializeError(
                 "Serialized ID has not been recorded in the log",
                 serialized_id=serialized_id,
             ) from None
+        if isinstance(value, ForwardReference):
+            return value.get_value()  # throw if not yet set
+        return value
 
     def record_reference(self, obj: object) -> SerializedId:
         serialized_id = SerializedId(len(self._object_by_serialized_id))
diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e4a910..98cb693 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -39,7 +39,12 @@ from v8serialize._pycompat.typing import (
     get_buffer,
     is_readable_binary,
 )
-from v8serialize._references import SerializedId, SerializedObjectLog
+from v8serialize._references import (
+    ForwardReference,
+    ForwardReferenceError,
+    SerializedId,
+    SerializedObjectLog,
+)
 from v8serialize._values import AnyJSError as AnyJSError
 from v8serialize._values import ArrayBufferConstructor as ArrayBufferConstructor
 from v8serialize._values import (
@@ -672,7 +677,7 @@ class ReadableTagStream:
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
-        except V8SerializeError as e:
+        except (V8SerializeError, ForwardReferenceError) as e:
             self.throw(
                 "ObjectReference contains serialized ID which has not been "
                 "deserialized",
@@ -822,9 +827,15 @@ class ReadableTagStream:
     ) -> T:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
+        # The host object's ID precedes those of any objects nested in its data
+        reference = ForwardReference[T]()
+        self.objects.record_reference(reference)
         if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+            result = deserializer.deserialize_host_object(stream=self)
+        else:
+            result = deserializer(stream=self)
+        reference.set_value(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index c22d21d..14cb7fc 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -688,8 +688,13 @@ class WritableTagStream:
         self.write_varint(flags)
 
     def write_host_object(
-        self, value: T, *, serializer: HostObjectSerializer[T]
+        self,
+        value: T,
+        *,
+        serializer: HostObjectSerializer[T],
+        identity: object | None = None,
     ) -> None:
+        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From 3c2d4d0de5862cbd7aa815cf49184ba2505a75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:22 +0000
Subject: [PATCH 05/65] fix: convert dates to and from milliseconds without
 rounding errors

Going through floating point seconds turned whole milliseconds into
fractions (which JavaScript truncates to the millisecond before) and lost
microseconds. Dates outside datetime's range now raise DecodeV8SerializeError.
---
 src/v8serialize/decode.py | 15 +++++++++++++--
 src/v8serialize/encode.py |  5 ++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 98cb693..815ef15 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -8,7 +8,7 @@ import struct
 import sys
 from collections.abc import Iterable, Mapping, MutableMapping, MutableSet, Sequence
 from dataclasses import dataclass, field
-from datetime import datetime, tzinfo
+from datetime import datetime, timedelta, tzinfo
 from functools import partial
 from types import MappingProxyType
 from typing import (
@@ -523,7 +523,18 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        try:
+            # Floating point seconds can't hold every millisecond precisely
+            epoch_s, fraction = divmod(
+                timedelta(milliseconds=epoch_ms), timedelta(seconds=1)
+            )
+            result = datetime.fromtimestamp(epoch_s, tz=tz).replace(
+                microsecond=fraction.microseconds
+            )
+        except (ValueError, OverflowError, OSError) as e:
+            self.throw(
+                f"Date cannot be represented as a datetime: {epoch_ms=}", cause=e
+            )
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 14cb7fc..2c32f26 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -426,7 +426,10 @@ class WritableTagStream:
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-        epoch_ms = value.timestamp() * 1000
+        # timestamp() * 1000 would add rounding errors, making whole milliseconds
+        # fractional, which JavaScript truncates.
+        epoch_s = value.replace(microsecond=0).timestamp()
+        epoch_ms = (round(epoch_s * 10**6) + value.microsecond) / 1000
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From d0e78724740ead5a9bab406f69fe5c8a2d477135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:58 +0000
Subject: [PATCH 06/65] fix: raise the decode error for malformed data that
 raised other errors

Invalid regular expression flags, error tags, sparse array lengths and
buffer view ranges now raise DecodeV8SerializeError, and huge integers
can be used as property keys and map keys.
---
 src/v8serialize/decode.py                     | 32 ++++++++++++-------
 src/v8serialize/jstypes/_equality.py          |  3 +-
 .../jstypes/_normalise_property_key.py        |  5 ++-
 3 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 815ef15..d8b1675 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -86,6 +86,7 @@ from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId
 from v8serialize.jstypes.jsarray import JSArray
 from v8serialize.jstypes.jsbuffers import (
     JSArrayBuffer,
+    JSArrayBufferError,
     JSArrayBufferTransfer,
     JSDataView,
     JSSharedArrayBuffer,
@@ -414,7 +415,10 @@ class ReadableTagStream:
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
         flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        try:
+            result = JSRegExp(source, flags)
+        except ValueError as e:
+            self.throw("RegExp flags are not valid", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
@@ -423,8 +427,7 @@ class ReadableTagStream:
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
-            f"(not a valid error tag)"
+            f"Expected an error tag but found {code} (not a valid error tag)"
         )
 
     @overload
@@ -660,7 +663,7 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kBeginSparseJSArray)
         self.objects.record_reference(identity)
-        expected_array_length = self.read_varint()
+        expected_array_length = self.read_uint32()
 
         def read_items() -> Generator[tuple[int | float | str, object], None, int]:
             actual_properties_count = yield from self._read_js_object_properties(
@@ -822,14 +825,19 @@ class ReadableTagStream:
         if self.version >= 14:  # flags field was added in v14
             flags = ArrayBufferViewFlags(self.read_varint())
 
-        result = array_buffer_view(
-            buffer=backing_buffer,
-            format=ArrayBufferViewTag(raw_view_tag),
-            byte_offset=byte_offset,
-            byte_length=(
-                None if ArrayBufferViewFlags.IsLengthTracking in flags else byte_length
-            ),
-        )
+        try:
+            result = array_buffer_view(
+                buffer=backing_buffer,
+                format=ArrayBufferViewTag(raw_view_tag),
+                byte_offset=byte_offset,
+                byte_length=(
+                    None
+                    if ArrayBufferViewFlags.IsLengthTracking in flags
+                    else byte_length
+                ),
+            )
+        except JSArrayBufferError as e:
+            self.throw("ArrayBufferView does not fit its ArrayBuffer", cause=e)
         self.objects.record_reference(result)
         return result
 
diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..32e9cf1 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -1,6 +1,5 @@
 from __future__ import annotations
 
-from math import isnan
 from typing import Final, NewType
 
 from v8serialize.jstypes.jsundefined import JSUndefinedEnum
@@ -81,7 +80,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        if value != value:  # isnan() cannot handle large ints
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..d3eac05 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -15,7 +15,10 @@ def canonical_numeric_index_string(value: str) -> int | None:
     """
     # isdecimal includes non-ascii decimal numbers.
     if value.isdecimal() and value.isascii():
-        int_value = int(value)
+        try:
+            int_value = int(value)
+        except ValueError:  # more digits than the interpreter allows converting
+            return None
         # numbers with unnecessary leading zeros are not canonical
         return None if value[0] == "0" and value != "0" else int_value
     return None
-- 
2.43.0


From 39102ac8c1ab3c1d2a35ea572748cbffc688d769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:56 +0000
Subject: [PATCH 07/65] fix: grow sparse arrays without copying their items

Decoding an object or sparse array with n ascending indexes took O(n^2).
---
 src/v8serialize/jstypes/jsarrayproperties.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..5f6a3e6 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -449,6 +449,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
     def resize(self, length: int) -> None:
         if length < 0 or length > MAX_ARRAY_LENGTH:
             raise ValueError(f"length must be >= 0 and < {MAX_ARRAY_LENGTH_REPR}")
+        if length > self._max_index:  # growing does not affect existing items
+            self._max_index = length - 1
+            return
         items = self._items
         sorted_keys = self._get_sorted_keys()
 
-- 
2.43.0


From 305598ff1397b11d0b3f44aa602ca60a24486497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 08/65] fix: emptying sparse arrays no longer fails an
 assertion

Removing or filling elements of a sparse array whose key order was not
cached raised AssertionError.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 5f6a3e6..b0ced93 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -528,12 +528,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
 
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
-
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
                     return
                 if i == sorted_keys[-1]:
@@ -549,9 +544,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
-            assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
             ):
@@ -595,14 +587,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if value is not JSHole:
             items[i] = value
 
-        if self._sorted_keys is None and len(items) <= 1:
-            self._sorted_keys = list(items)
-        else:
-            self._sorted_keys = None
+        self._sorted_keys = list(items) if len(items) <= 1 else None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
-- 
2.43.0


From 08047a8ba4f457385fa34e93497b89e7b1edd2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 09/65] fix: keep trailing holes appended to sparse arrays

---
 src/v8serialize/jstypes/jsarrayproperties.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index b0ced93..09606de 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            if not supports_sized(values):
+                values = list(values)  # the length includes trailing holes
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
@@ -595,6 +596,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
-- 
2.43.0


From 79698388d7e87a6697c9c8b7c2ea6ec5a797153d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 10/65] fix: insert into arrays at the positions list.insert()
 uses

Inserting at the end of a sparse array, or before the start of any
array, raised IndexError.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 09606de..9139915 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -338,8 +338,6 @@ class DenseArrayProperties(AbstractArrayProperties[T]):
         self._elements_used -= 1
 
     def insert(self, i: int, o: T | JSHoleType) -> None:
-        i = self._normalise_index(i)
-
         self._items.insert(i, o)
 
         if o is not JSHole:
@@ -576,9 +574,10 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
+        # Like list.insert(), indexes beyond either end insert at the end
+        i = max(0, len(self) + i) if i < 0 else min(i, len(self))
 
         # Inserting into a list shifts all elements at or after i up by one
         self._items = items = {
-- 
2.43.0


From c742dbadfc75e3dce75eda8bea519e74fe53025e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:12 +0000
Subject: [PATCH 11/65] fix: raise KeyError for the element after the last in
 elements()

---
 src/v8serialize/jstypes/jsarrayproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 9139915..2f77684 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -653,7 +653,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From b3894fe7857870af0864332a1dd8e1ce1b1cf616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 12/65] fix: do not substitute equal values that differ in
 JavaScript when encoding

dumps([0.0, -0.0]) wrote 0.0 twice, and (1,), (1.0,) and (True,) were
written as references to each other.
---
 src/v8serialize/encode.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 2c32f26..72c8c6e 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -802,6 +802,18 @@ See Also
 """
 
 
+NON_INTERCHANGEABLE_TYPES = (
+    float,
+    tuple,
+    abc.Set,
+    abc.Mapping,
+    datetime,
+    JSPrimitiveObject,
+    JSArrayBufferView,
+)
+"""Hashable types whose values can be equal but different in JavaScript."""
+
+
 @dataclass(init=False, **slots_if310())
 class DefaultEncodeContext(EncodeContext):
     encode_steps: Sequence[EncodeStep]
@@ -850,6 +862,11 @@ class DefaultEncodeContext(EncodeContext):
         )
 
     def deduplicate(self, value: T) -> T:
+        # Types with equal values that are not the same in JavaScript cannot be
+        # interchanged: 0.0 == -0.0 and 1 == True == 1.0 (also when nested in
+        # another value), datetimes ignore fold, views ignore their offset.
+        if isinstance(value, NON_INTERCHANGEABLE_TYPES):
+            return value
         if getattr(value, "__hash__", None) is not None:
             try:
                 return self._memoized(value)  # type: ignore[no-any-return]
-- 
2.43.0


From 1f0a638b02054873b68a819976bf969b20ca243e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:03 +0000
Subject: [PATCH 13/65] fix: show the readonly value in the repr of buffer
 views

---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..90f9e83 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -636,7 +636,7 @@ the itemsize when the view does not have an explicit byte_length"""
             f"{self.backing_buffer!r}",
             None if self.item_offset == 0 else f"item_offset={self.item_offset!r}",
             None if self.item_length is None else f"item_length={self.item_length!r}",
-            None if self.readonly is None else f"readonly={self.item_length!r}",
+            None if self.readonly is None else f"readonly={self.readonly!r}",
         ]
         args = ", ".join(a for a in arg_pieces if a)
         return f"{type(self).__name__}({args})"
-- 
2.43.0


From 224f5093d39c0398a2b53993c8802e7b9ed1c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:36 +0000
Subject: [PATCH 14/65] fix: raise EncodeV8SerializeError for values the format
 cannot hold

It is documented as the parent of all data-specific errors. Lone
surrogates, out of range integers and ids, and datetimes without a
timestamp raised other types, or wrote invalid data (ids over 32 bits).
---
 src/v8serialize/encode.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 72c8c6e..47ea78e 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -225,7 +225,7 @@ class WritableTagStream:
 
     def write_varint(self, n: int) -> None:
         if n < 0:
-            raise ValueError(f"varint must be non-negative: {n}")
+            raise EncodeV8SerializeError(f"varint must be non-negative: {n}")
         while True:
             uint7 = n & 0b1111111
             n >>= 7
@@ -305,7 +305,12 @@ class WritableTagStream:
         **Note: We never encode Utf8String at runtime, but we use it to test the
         decoder. The V8 implementation only decodes Utf8String.**
         """
-        encoded = value.encode("utf-8")
+        try:
+            encoded = value.encode("utf-8")
+        except UnicodeEncodeError as e:
+            raise EncodeV8SerializeError(
+                "Attempted to encode a string containing surrogates"
+            ) from e
         self.write_tag(tag)
         self.write_varint(len(encoded))
         self.data.extend(encoded)
@@ -318,7 +323,7 @@ class WritableTagStream:
     ) -> None:
         byte_length = (value.bit_length() + 8) // 8  # round up
         if byte_length.bit_length() > 30:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as JavaScript BigInt: "
                 f"30 bits are available to represent the byte length, but this "
                 f"int needs {byte_length.bit_length()}"
@@ -336,7 +341,7 @@ class WritableTagStream:
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
         if value not in INT32_RANGE:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Int32: value must be "
                 f"in {INT32_RANGE}"
             )
@@ -350,7 +355,7 @@ class WritableTagStream:
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
         if value not in UINT32_RANGE:
-            raise ValueError(
+            raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Uint32: value must be "
                 f"in {UINT32_RANGE}"
             )
@@ -428,7 +433,12 @@ class WritableTagStream:
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
         # timestamp() * 1000 would add rounding errors, making whole milliseconds
         # fractional, which JavaScript truncates.
-        epoch_s = value.replace(microsecond=0).timestamp()
+        try:
+            epoch_s = value.replace(microsecond=0).timestamp()
+        except (ValueError, OverflowError) as e:  # local times near the limits
+            raise EncodeV8SerializeError(
+                f"datetime cannot be represented as a timestamp: {value}"
+            ) from e
         epoch_ms = (round(epoch_s * 10**6) + value.microsecond) / 1000
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
@@ -649,19 +659,23 @@ class WritableTagStream:
         self, buffer: AnySharedArrayBuffer, *, identity: object | None = None
     ) -> None:
         if buffer.buffer_id < 0:
-            raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
+            raise EncodeV8SerializeError(
+                f"buffer_id cannot be negative: {buffer.buffer_id=}"
+            )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
-        self.write_varint(buffer.buffer_id)
+        self.write_uint32(buffer.buffer_id, tag=None)
 
     def _write_js_array_buffer_transfer(
         self, buffer: AnyArrayBufferTransfer, *, identity: object | None = None
     ) -> None:
         if buffer.transfer_id < 0:
-            raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
+            raise EncodeV8SerializeError(
+                f"transfer_id cannot be negative: {buffer.transfer_id=}"
+            )
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
-        self.write_varint(buffer.transfer_id)
+        self.write_uint32(buffer.transfer_id, tag=None)
 
     def write_js_array_buffer_view(
         self, buffer_view: AnyArrayBufferView, *, identity: object | None = None
-- 
2.43.0


From e3944f4e39296006707895198905817b5e666857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:11 +0000
Subject: [PATCH 15/65] fix: refuse constants as object keys

Writing a constant replaced the constraint on the tags of keys.
---
 src/v8serialize/encode.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 47ea78e..68f5306 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -238,8 +238,13 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
-        with self.constrain_tags(JS_CONSTANT_TAGS):
-            self.write_tag(constant)
+        # This must not replace an existing constraint, such as for object keys
+        if constant not in JS_CONSTANT_TAGS:
+            raise EncodeV8SerializeError(
+                f"Attempted to write tag {constant.name} in a context where "
+                f"allowed tags are {JS_CONSTANT_TAGS}"
+            )
+        self.write_tag(constant)
 
     def write_header(self) -> None:
         """Write the V8 serialization stream header."""
-- 
2.43.0


From 19344d29adfa7e3460c720b6debd282fe51510c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 16/65] fix: refuse integers too large for a double without
 writing their tag

---
 src/v8serialize/encode.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 68f5306..4040aab 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -257,8 +257,14 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kDouble] | None = SerializationTag.kDouble,
     ) -> None:
+        try:
+            encoded = struct.pack("<d", value)
+        except OverflowError as e:
+            raise EncodeV8SerializeError(
+                "Python int is too large to represent as Double"
+            ) from e
         self.write_tag(tag)
-        self.data.extend(struct.pack("<d", value))
+        self.data.extend(encoded)
 
     def write_string_onebyte(
         self,
-- 
2.43.0


From e5d72b1ed3d6b493a593e9a8e76b0b28db70738f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 17/65] fix: serialize errors named URIError as URIError

---
 src/v8serialize/constants.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index d6a12cd..b943db8 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -420,6 +420,8 @@ class JSErrorName(StrEnum):
             The `JSErrorName` enum member equal to `error_name`, or
             `JSErrorName.Error` if none match.
         """
+        if error_name == "URIError":  # as JavaScript spells it
+            return JSErrorName.UriError
         return (
             JSErrorName(error_name) if error_name in JSErrorName else JSErrorName.Error
         )
-- 
2.43.0


From 7932860d7879f8f8e7d6e319774a897c9e0dadca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:14 +0000
Subject: [PATCH 18/65] fix: count bytes in buffers that wrap multi-byte arrays
 without copying

JSArrayBuffer(array('i', ...), copy_data=False) was serialized truncated.
---
 src/v8serialize/jstypes/jsbuffers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 90f9e83..3d0d7a1 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -153,6 +153,11 @@ Reference/Global_Objects/ArrayBuffer
                 # affecting us.
                 data = data[:]
 
+            if not (copy_data or isinstance(data, (bytes, bytearray))):
+                with memoryview(data) as view:
+                    if view.format != "B" or view.ndim != 1:
+                        data = view.cast("B")  # so that our lengths count bytes
+
             if copy_data:
                 data = bytes(data) if readonly else bytearray(data)
             elif readonly and not isinstance(data, bytes):
-- 
2.43.0


From 9cc75060333eb3747e6e9560ff1e499faa835ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:47 +0000
Subject: [PATCH 19/65] fix: write views over other buffer objects as views of
 an ArrayBuffer

The backing buffer of JSUint8Array(array('i', ...)) was written as a list,
which is not valid before a view.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 4040aab..83ebb75 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1140,7 +1140,10 @@ class TagWriter(EncodeStepObject):
                     f"{SerializationFeature.Float16Array!r} is not enabled.",
                 )
                 raise e
-        ctx.encode_object(value.backing_buffer)
+        buffer = value.backing_buffer
+        if not isinstance(buffer, (BaseJSArrayBuffer, bytes, bytearray, memoryview)):
+            buffer = memoryview(buffer)  # e.g. array.array is encoded as a list
+        ctx.encode_object(buffer)
         ctx.stream.write_js_array_buffer_view(value)
 
 
-- 
2.43.0


From dececa27181197208ef33ecbdf6e376ac39acd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 20/65] fix: skip padding between a buffer and its view

peak_tag() did not ignore padding, as read_tag() and V8 do.
---
 src/v8serialize/decode.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index d8b1675..426ba0e 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -195,11 +195,12 @@ class ReadableTagStream:
             The SerializationTag if the current byte corresponds to one,
             otherwise None.
         """
-        if self.eof:
-            return None
-        value = self.data[self.pos]
-        if value in SerializationTag:
-            return SerializationTag(value)
+        for pos in range(self.pos, len(self.data)):
+            value = self.data[pos]
+            # Like read_tag(), ignore padding preceding a tag
+            if value == SerializationTag.kPadding:
+                continue
+            return SerializationTag(value) if value in SerializationTag else None
         return None
 
     @overload
-- 
2.43.0


From f8298a423dec18e500834448230ba2638900bf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:15 +0000
Subject: [PATCH 21/65] fix: read buffers with multi-byte or signed items as
 bytes

---
 src/v8serialize/_pycompat/typing.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/_pycompat/typing.py b/src/v8serialize/_pycompat/typing.py
index 2b6126c..cdf31a1 100644
--- a/src/v8serialize/_pycompat/typing.py
+++ b/src/v8serialize/_pycompat/typing.py
@@ -57,7 +57,11 @@ Can also be any [`BufferSequence`](`v8serialize.BufferSequence`).
 
 def is_readable_binary(buffer: Buffer) -> TypeGuard[ReadableBinary]:
     """Return True if a binary value can be read without wrapping in a `memoryview`."""
-    return isinstance(buffer, (bytes, bytearray, memoryview, array, Sequence))
+    if isinstance(buffer, array):
+        return buffer.typecode == "B"
+    if isinstance(buffer, memoryview):  # items must be single bytes, as ints
+        return buffer.format == "B" and buffer.ndim == 1
+    return isinstance(buffer, (bytes, bytearray, Sequence))
 
 
 def get_buffer(
-- 
2.43.0


From 98376f1e660911c23bb74a37a1a0b8bc1eeea1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:32 +0000
Subject: [PATCH 22/65] fix: only flag views as resizable when their buffer is
 written as resizable

---
 src/v8serialize/encode.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 83ebb75..9bcc98a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -707,11 +707,17 @@ class WritableTagStream:
         # 0 / None when flags.IsBufferResizable
         self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
+        # V8 rejects these flags unless the buffer was written as resizable.
+        # bytearray can be resized, but is always written with a fixed length.
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
-            flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+        if (
+            SerializationFeature.ResizableArrayBuffers in self.features
+            and not isinstance(getattr(buffer_view, "backing_buffer", None), bytearray)
+        ):
+            if buffer_view.is_backing_buffer_resizable:
+                flags |= ArrayBufferViewFlags.IsBufferResizable
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
 
         self.write_varint(flags)
 
-- 
2.43.0


From b9988aa121876059248e00b15d990d041b4ddc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:24 +0000
Subject: [PATCH 23/65] fix: read and write the tag of the string in boxed
 strings

---
 src/v8serialize/decode.py | 11 ++++++++++-
 src/v8serialize/encode.py |  3 ++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 426ba0e..077e3e5 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -403,7 +403,16 @@ class ReadableTagStream:
                 self.read_bigint(tag=False), tag=SerializationTag.kBigIntObject
             )
         elif tag is SerializationTag.kStringObject:
-            result = JSPrimitiveObject(self.read_string_utf8(tag=False))
+            # The tag is followed by a string with its own tag
+            string_tag = self.read_tag()
+            if string_tag is SerializationTag.kOneByteString:
+                result = JSPrimitiveObject(self.read_string_onebyte())
+            elif string_tag is SerializationTag.kTwoByteString:
+                result = JSPrimitiveObject(self.read_string_twobyte())
+            elif string_tag is SerializationTag.kUtf8String:
+                result = JSPrimitiveObject(self.read_string_utf8())
+            else:
+                self.throw(f"Expected a string tag but found {string_tag.name}")
         else:
             raise AssertionError(f"Unreachable: {tag}")
         return self.objects.record_reference(result), result
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 9bcc98a..12ada4a 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -382,7 +382,8 @@ class WritableTagStream:
         self.write_tag(tag)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
-            self.write_string_utf8(value, tag=None)
+            # V8 expects a string with its own tag after the object's tag
+            self.write_string_utf8(value)
         elif (
             tag is SerializationTag.kTrueObject or tag is SerializationTag.kFalseObject
         ):
-- 
2.43.0


From 055e5795432aa581997ed6cf3c960989ec50e3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:18 +0000
Subject: [PATCH 24/65] fix: keep the range of views over buffers Python cannot
 access

---
 src/v8serialize/jstypes/jsbuffers.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 3d0d7a1..6666356 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -521,13 +521,20 @@ the itemsize when the view does not have an explicit byte_length"""
         The offset is 0 when the buffer is out-of-range, or the number of bytes
         given by `item_offset * view_format.itemsize`.
         """
-        if not self.is_in_range:
+        if self.__is_backing_buffer_accessible() and not self.is_in_range:
             return 0
         return self.item_offset * self.data_format.byte_length
 
     @property
     def byte_length(self) -> int:
-        """The number of bytes accessible through this view."""
+        """The number of bytes accessible through this view.
+
+        If the buffer's data can't be accessed from Python (as with
+        [`JSSharedArrayBuffer`](`v8serialize.jstypes.JSSharedArrayBuffer`)) it's
+        the number of bytes the view was created with.
+        """
+        if not self.__is_backing_buffer_accessible():
+            return (self.item_length or 0) * self.data_format.byte_length
         return self.__get_buffer_as_memoryview()[1].nbytes
 
     @property
@@ -553,6 +560,13 @@ the itemsize when the view does not have an explicit byte_length"""
         self, *, readonly: Literal[True] | None = None
     ) -> ContextManager[AnyBufferT]: ...
 
+    def __is_backing_buffer_accessible(self) -> bool:
+        try:
+            get_buffer(self.backing_buffer)
+            return True
+        except NotImplementedError:
+            return False
+
     def __get_buffer_as_memoryview(
         self, *, readonly: Literal[True] | None = None
     ) -> tuple[bool, memoryview]:
-- 
2.43.0


From e46299721b1d7e62f7e65f2b2188e3a0b7a74d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 25/65] fix: serialize instances of int subclasses without
 scanning ranges

---
 src/v8serialize/constants.py                 | 10 ++++++++++
 src/v8serialize/encode.py                    | 11 ++++++-----
 src/v8serialize/jstypes/jsprimitiveobject.py |  3 ++-
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/constants.py b/src/v8serialize/constants.py
index b943db8..3c29670 100644
--- a/src/v8serialize/constants.py
+++ b/src/v8serialize/constants.py
@@ -49,6 +49,16 @@ JavaScript/Reference/Global_Objects/Number/MIN_SAFE_INTEGER
 JavaScript/Reference/Global_Objects/Number/MAX_SAFE_INTEGER
 """
 
+
+def is_in_range(value: int, allowed: range) -> bool:
+    """Check if an integer is within a range that has a step of 1.
+
+    Unlike `value in allowed`, this does not compare value with every integer in
+    the range when value is an instance of a subclass of int (e.g. an IntEnum).
+    """
+    return allowed.start <= value < allowed.stop
+
+
 MAX_ARRAY_LENGTH: Final = 2**32 - 1
 """
 1 larger than the maximum integer index of a JavaScript array.
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 12ada4a..34c39e9 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -57,6 +57,7 @@ from v8serialize.constants import (
     SymbolicVersion,
     TagConstraint,
     UnreleasedVersion,
+    is_in_range,
     kLatestVersion,
 )
 from v8serialize.jstypes import JSObject
@@ -351,7 +352,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
-        if value not in INT32_RANGE:
+        if not is_in_range(value, INT32_RANGE):
             raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Int32: value must be "
                 f"in {INT32_RANGE}"
@@ -365,7 +366,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
-        if value not in UINT32_RANGE:
+        if not is_in_range(value, UINT32_RANGE):
             raise EncodeV8SerializeError(
                 f"Python int is too large to represent as Uint32: value must be "
                 f"in {UINT32_RANGE}"
@@ -935,11 +936,11 @@ class TagWriter(EncodeStepObject):
     def serialize_int(
         self, value: int, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        if value in UINT32_RANGE:
+        if is_in_range(value, UINT32_RANGE):
             ctx.stream.write_uint32(value)
-        elif value in INT32_RANGE:
+        elif is_in_range(value, INT32_RANGE):
             ctx.stream.write_int32(value)
-        elif value in FLOAT64_SAFE_INT_RANGE:
+        elif is_in_range(value, FLOAT64_SAFE_INT_RANGE):
             ctx.stream.write_double(value)
         else:
             # Can't use bigints for object keys, so write large ints as strings
diff --git a/src/v8serialize/jstypes/jsprimitiveobject.py b/src/v8serialize/jstypes/jsprimitiveobject.py
index 17ef3d2..502074b 100644
--- a/src/v8serialize/jstypes/jsprimitiveobject.py
+++ b/src/v8serialize/jstypes/jsprimitiveobject.py
@@ -9,6 +9,7 @@ from v8serialize.constants import (
     FLOAT64_SAFE_INT_RANGE,
     PrimitiveObjectTag,
     SerializationTag,
+    is_in_range,
 )
 
 if TYPE_CHECKING:
@@ -70,7 +71,7 @@ class JSPrimitiveObject(Generic[T], metaclass=ABCMeta):
         elif isinstance(value, float):
             expected_tag = SerializationTag.kNumberObject
         elif isinstance(value, int):
-            if value in FLOAT64_SAFE_INT_RANGE:
+            if is_in_range(value, FLOAT64_SAFE_INT_RANGE):
                 expected_tag = SerializationTag.kNumberObject
                 expected_tag2 = SerializationTag.kBigIntObject
             else:
-- 
2.43.0


From 2183331393fbf9674c98ae578e67395d5b5326da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:46 +0000
Subject: [PATCH 26/65] fix: reject varints larger than 32 bits where the
 format holds 32-bit integers

---
 src/v8serialize/decode.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 077e3e5..584e99e 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -305,7 +305,7 @@ class ReadableTagStream:
         @return the header's version number.
         """
         self.read_tag(SerializationTag.kVersion)
-        version = self.read_varint()
+        version = self.read_varint(max_bits=32)
         # v13 was first released in 2017.
         if version > kLatestVersion or version < 13:
             self.throw(f"Unsupported version {version}")
@@ -324,7 +324,7 @@ class ReadableTagStream:
         """Decode a OneByteString, which is latin1-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kOneByteString)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         self.ensure_capacity(length)
         # Decoding latin1 can't fail/throw — just 1 byte/char.
         # We use codecs.decode because not all ReadableBinary types have a
@@ -336,7 +336,7 @@ class ReadableTagStream:
         """Decode a TwoByteString, which is UTF-16-encoded text."""
         if tag:
             self.read_tag(SerializationTag.kTwoByteString)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         try:
             value = codecs.decode(self.read_bytes(length), "utf-16-le")
         except UnicodeDecodeError as e:
@@ -348,7 +348,7 @@ class ReadableTagStream:
         """Decode a Utf8String, which is UTF8-encoded text."""
         if tag:
             self.read_tag(tag=SerializationTag.kUtf8String)
-        length = self.read_varint()
+        length = self.read_varint(max_bits=32)
         try:
             value = codecs.decode(self.read_bytes(length), "utf-8")
         except UnicodeDecodeError as e:
@@ -359,7 +359,7 @@ class ReadableTagStream:
     def read_bigint(self, *, tag: bool = False) -> int:
         if tag:
             self.read_tag(tag=SerializationTag.kBigInt)
-        bitfield = self.read_varint()
+        bitfield = self.read_varint(max_bits=32)
         is_negative = bitfield & 1
         byte_count = (bitfield >> 1) & 0b111111111111111111111111111111
         value = int.from_bytes(self.read_bytes(byte_count), byteorder="little")
@@ -424,7 +424,7 @@ class ReadableTagStream:
             self.read_tag(tag=SerializationTag.kRegExp)
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
-        flags = JSRegExpFlag(self.read_varint())
+        flags = JSRegExpFlag(self.read_varint(max_bits=32))
         try:
             result = JSRegExp(source, flags)
         except ValueError as e:
@@ -433,7 +433,7 @@ class ReadableTagStream:
 
     def read_error_tag(self) -> SerializationErrorTag:
         self.ensure_capacity(1)
-        code = self.read_varint()
+        code = self.read_varint(max_bits=32)
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
@@ -561,7 +561,7 @@ class ReadableTagStream:
         while (next_tag := self.read_tag()) != SerializationTag.kEndJSMap:
             yield ctx.decode_object(tag=next_tag), ctx.decode_object()
             actual_count += 2
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
 
         if expected_count != actual_count:
             self.throw(
@@ -582,7 +582,7 @@ class ReadableTagStream:
             yield ctx.decode_object(tag=next_tag)
             actual_count += 1
 
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
         if expected_count != actual_count:
             self.throw(
                 f"Expected count does not match actual count after reading "
@@ -629,7 +629,7 @@ class ReadableTagStream:
                     f"{JS_OBJECT_KEY_TAGS}"
                 )
 
-        expected_count = self.read_varint()
+        expected_count = self.read_varint(max_bits=32)
         if expected_count != actual_count:
             self.throw(
                 f"Expected properties count does not match actual count after reading "
@@ -646,7 +646,7 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kBeginDenseJSArray)
         self.objects.record_reference(identity)
         current_array_el_count = 0
-        expected_array_el_count = self.read_varint()
+        expected_array_el_count = self.read_varint(max_bits=32)
 
         for i in range(expected_array_el_count):
             yield i, ctx.decode_object()
@@ -657,7 +657,7 @@ class ReadableTagStream:
             end_tag=SerializationTag.kEndDenseJSArray,
             enclosing_name="DenseJSArray",
         )
-        final_array_el_count = self.read_varint()
+        final_array_el_count = self.read_varint(max_bits=32)
 
         if expected_array_el_count != final_array_el_count:
             self.throw(
@@ -681,7 +681,7 @@ class ReadableTagStream:
                 end_tag=SerializationTag.kEndSparseJSArray,
                 enclosing_name="SparseJSArray",
             )
-            final_array_length = self.read_varint()
+            final_array_length = self.read_varint(max_bits=32)
             if expected_array_length != final_array_length:
                 self.throw(
                     "Expected array length does not match the final length "
@@ -697,7 +697,7 @@ class ReadableTagStream:
     ) -> tuple[SerializedId, object]:
         if tag:
             self.read_tag(SerializationTag.kObjectReference)
-        serialized_id = SerializedId(self.read_varint())
+        serialized_id = SerializedId(self.read_varint(max_bits=32))
 
         try:
             return serialized_id, self.objects.get_object(serialized_id)
@@ -821,7 +821,7 @@ class ReadableTagStream:
     ) -> ViewT:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferView)
-        raw_view_tag = self.read_varint()
+        raw_view_tag = self.read_varint(max_bits=32)
         if raw_view_tag not in ArrayBufferViewTag:
             self.throw(
                 f"ArrayBufferView view type {hex(raw_view_tag)} is not a known type"
@@ -833,7 +833,7 @@ class ReadableTagStream:
         byte_length = self.read_uint32()
         flags = ArrayBufferViewFlags(0)
         if self.version >= 14:  # flags field was added in v14
-            flags = ArrayBufferViewFlags(self.read_varint())
+            flags = ArrayBufferViewFlags(self.read_varint(max_bits=32))
 
         try:
             result = array_buffer_view(
-- 
2.43.0


From a97fa9ad4dc2fd5c9dd92d3b12d10cd42a3ef884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:27 +0000
Subject: [PATCH 27/65] fix: detect truncated resizable array buffers

---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 584e99e..34515e0 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -765,11 +765,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From 8588ac68cdcdf031657bea31cc4c00b8ee1d6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:08 +0000
Subject: [PATCH 28/65] fix: do not write views of shared or transferred
 buffers as empty Node.js buffers

---
 src/v8serialize/extensions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/extensions.py b/src/v8serialize/extensions.py
index ded420b..90231a2 100644
--- a/src/v8serialize/extensions.py
+++ b/src/v8serialize/extensions.py
@@ -14,7 +14,9 @@ from v8serialize.constants import ArrayBufferViewTag
 from v8serialize.jstypes.jsbuffers import (
     ArrayBufferViewStructFormat,
     JSArrayBuffer,
+    JSArrayBufferTransfer,
     JSDataView,
+    JSSharedArrayBuffer,
     JSTypedArray,
 )
 
@@ -140,8 +142,13 @@ def serialize_js_array_buffer_views_as_nodejs_host_object(
     `NodeJsArrayBufferViewHostObjectHandler` must be used to read Node.JS's
     custom encoding).
     """
-    if isinstance(value, (JSDataView, JSTypedArray)) and NodeBufferFormat.supports(
-        value.view_tag
+    if (
+        isinstance(value, (JSDataView, JSTypedArray))
+        and NodeBufferFormat.supports(value.view_tag)
+        # The bytes of these buffers are not available
+        and not isinstance(
+            value.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        )
     ):
         ctx.stream.write_host_object(
             value, serializer=_node_js_array_buffer_view_host_object_handler
-- 
2.43.0


From 35381bee1a52673314c0ba06fbc1a11dcbbb4200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:13 +0000
Subject: [PATCH 29/65] fix: Encoder.first_v8_version when no features are
 enabled

---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 34c39e9..6a49a4b 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1248,7 +1248,10 @@ class Encoder:
     @property
     def first_v8_version(self) -> Version | UnreleasedVersion:
         """The earliest version of V8 that can read data produced by this Encoder."""
-        return max(f.first_v8_version for f in self.features)
+        return max(
+            (f.first_v8_version for f in self.features),
+            default=SerializationFeature.MaxCompatibility.first_v8_version,
+        )
 
     def encode(self, value: object) -> bytearray:
         """
-- 
2.43.0


From f3585a590cf30f07c2e5767d13631652142c7051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 30/65] fix: bytes patterns that are not UTF-8 raise the
 library's error

---
 src/v8serialize/jstypes/jsregexp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index d83941f..f7ae093 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -69,7 +69,14 @@ JavaScript/Reference/Global_Objects/RegExp
         no equivalent JavaScript flag.
         """
         if isinstance(pattern.pattern, bytes):
-            source = pattern.pattern.decode()
+            try:
+                source = pattern.pattern.decode()
+            except UnicodeDecodeError as e:
+                if throw:
+                    raise JSRegExpV8SerializeError(
+                        f"Python re.Pattern bytes are not valid UTF-8: {e}"
+                    ) from e
+                return None
         else:
             source = pattern.pattern
         try:
-- 
2.43.0


From d174042df53ea83e043da12d26cee8d986e9cd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 31/65] fix: as_python_pattern raises its own error for all
 sources Python rejects

---
 src/v8serialize/jstypes/jsregexp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index f7ae093..2b3849d 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -108,7 +108,7 @@ JavaScript/Reference/Global_Objects/RegExp
         # so some patterns still don't work.
         try:
             return compile(self.source, self.flags.as_python_flags())
-        except (JSRegExpV8SerializeError, re.error) as e:
+        except (JSRegExpV8SerializeError, re.error, ValueError, OverflowError) as e:
             if throw:
                 raise JSRegExpV8SerializeError(
                     f"JSRegExp is not a valid Python re.Pattern: {e}"
-- 
2.43.0


From e0f51484bea94c37fcd9feb8e215e3054200e33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 32/65] fix: jsset_type=set fails to deserialize a Set

---
 src/v8serialize/decode.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 34515e0..a831687 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1301,9 +1301,9 @@ class TagReader(DecodeStepObject):
     ) -> AbstractSet[object]:
         assert tag == SerializationTag.kBeginJSSet
         set = self.jsset_type()
-        # MutableSet's types expect AbstractSet for RHS of |= but implementations
-        # accept any iterable in practice.
-        set |= ctx.stream.read_jsset(ctx, identity=set)  # type: ignore[arg-type]
+        # Python's own set type does not accept arbitrary iterables on RHS of |=
+        for element in ctx.stream.read_jsset(ctx, identity=set):
+            set.add(element)
         return set
 
     def deserialize_js_object(
-- 
2.43.0


From 4ffa7fdf091b525fd55a3ebff0e9630edd2c38ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:31 +0000
Subject: [PATCH 33/65] fix: property keys of str subclasses raise
 AssertionError

---
 src/v8serialize/jstypes/jsobject.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index fef44f8..d2eb3be 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -143,7 +143,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __getitem__(self, key: str | int, /) -> T:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             properties = self._properties
             if k in properties:
                 return properties[k]
@@ -159,7 +159,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __setitem__(self, key: str | int | float, value: T, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if value is JSHole:
                 self._properties.pop(k, None)
             else:
@@ -192,7 +192,7 @@ JavaScript/Reference/Global_Objects/Array
 
     def __delitem__(self, key: str | int, /) -> None:
         k = normalise_property_key(key)
-        if type(k) is str:
+        if isinstance(k, str):
             if k in self._properties:
                 del self._properties[k]
                 return
-- 
2.43.0


From 66cd558c7bfcd8ca863318dd437c56dd1903a764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 34/65] fix: JSSet difference with a regular set matched
 members with ==

JSSet - set (and so ^, &=) asked the regular set whether it contains each
member, so True was removed by 1, equal but distinct objects were removed,
and unhashable members raised TypeError. Other iterables already follow
same-value-zero.
---
 src/v8serialize/jstypes/jsset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 611e3ae..2d5bfb8 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -173,6 +173,13 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __repr__(self) -> str:
         return _repr.js_repr(self)
 
+    # Regular sets would match our members using == and hash(), so they're treated
+    # like any other iterable.
+    def __sub__(self, other: Iterable[object]) -> Self:
+        if isinstance(other, Iterable) and not isinstance(other, JSSet):
+            other = JSSet(other)
+        return super(JSSet, self).__sub__(other)  # type: ignore[operator,return-value]
+
     # Overrides for optimisation purposes
     def clear(self) -> None:
         self.__members.clear()
@@ -189,5 +196,4 @@ Equality_comparisons_and_sameness#same-value-zero_equality
 
         def __and__(self, other: Iterable[object]) -> Self: ...
         def __or__(self, other: Iterable[U]) -> JSSet[U | T]: ...
-        def __sub__(self, other: Iterable[object]) -> Self: ...
         def __xor__(self, other: Iterable[U]) -> JSSet[U | T]: ...
-- 
2.43.0


From 93568a48f55947812872f7494d2ee3d7b1124550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:42 +0000
Subject: [PATCH 35/65] fix: JSMap(init=...) and JSMap(self=...) are items

The overloads declare the parameters positional-only, but the
implementation was not, so JSMap(init=1) raised TypeError.
---
 src/v8serialize/jstypes/jsmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index 8348460..aeb4754 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -178,6 +178,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __init__(  # type: ignore[misc]  # mypy doesn't like all the overloads
         self,
         init: SupportsKeysAndGetItem[KT, VT] | Iterable[tuple[KT, VT]] | None = None,
+        /,
         **kwargs: VT,
     ) -> None:
         self.__dict = {}
-- 
2.43.0


From 3c2218307f71e02b46689fee4f720cd9a861f1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 36/65] fix: copies and pickles of JSMap and JSSet are broken

copy.copy() shared the entries with the original, and copy.deepcopy() and
pickle kept entries under the identities of the original keys, so keys and
members compared by identity were present when iterating but could not be
found, replaced or removed.
---
 src/v8serialize/jstypes/jsmap.py | 14 ++++++++++++++
 src/v8serialize/jstypes/jsset.py | 14 +++++++++++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index aeb4754..b0701ae 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -240,6 +240,20 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __repr__(self) -> str:
         return _repr.js_repr(self)
 
+    # Our internal dict can be neither shared with a copy nor copied as it is — its
+    # keys can refer to the identity of our keys.
+    def __getstate__(self) -> object:
+        return list(self.items()), getattr(self, "__dict__", {})
+
+    def __setstate__(
+        self, state: tuple[list[tuple[KT, VT]], Mapping[str, object]]
+    ) -> None:
+        items, attributes = state
+        self.__dict = {}
+        JSMap.update(self, items)
+        for name, value in attributes.items():
+            setattr(self, name, value)
+
     # Overrides for optimisation purposes. Clear is very worthwhile, the others
     # are marginal and barely worth it...
     def clear(self) -> None:
diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 2d5bfb8..62a6247 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 from abc import ABCMeta
-from collections.abc import Iterable, Iterator, MutableSet
+from collections.abc import Iterable, Iterator, Mapping, MutableSet
 from dataclasses import dataclass
 from typing import TYPE_CHECKING, AbstractSet, overload
 
@@ -173,6 +173,18 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __repr__(self) -> str:
         return _repr.js_repr(self)
 
+    # Our internal dict can be neither shared with a copy nor copied as it is — its
+    # keys can refer to the identity of our members.
+    def __getstate__(self) -> object:
+        return list(self), getattr(self, "__dict__", {})
+
+    def __setstate__(self, state: tuple[list[T], Mapping[str, object]]) -> None:
+        members, attributes = state
+        self.__members = {}
+        JSSet.__ior__(self, members)
+        for name, value in attributes.items():
+            setattr(self, name, value)
+
     # Regular sets would match our members using == and hash(), so they're treated
     # like any other iterable.
     def __sub__(self, other: Iterable[object]) -> Self:
-- 
2.43.0


From 273383b2b7404409fb7342c814b6c75e59377888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:20 +0000
Subject: [PATCH 37/65] fix: JSMap and JSSet cannot be compared with registered
 virtual subclasses

== used a private attribute of the other object, which types registered with
JSMap.register() or JSSet.register() don't have, and raised AttributeError.
---
 src/v8serialize/jstypes/jsmap.py | 4 +---
 src/v8serialize/jstypes/jsset.py | 5 +----
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index b0701ae..b3e312c 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -220,9 +220,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             if len(self) != len(other):
                 return False
             # Two JSMaps are equal if they contain equal items in the same order
-            return all(
-                x == y for x, y in zip(self.__dict.values(), other.__dict.values())
-            )
+            return all(x == y for x, y in zip(self.__dict.values(), other.items()))
         if isinstance(other, Mapping):
             if len(self) != len(other):
                 return False
diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 62a6247..faea831 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -146,10 +146,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             if len(self) != len(other):
                 return False
             # Two JSSets are equal if they contain equal members in the same order
-            return all(
-                x == y
-                for x, y in zip(self.__members.values(), other.__members.values())
-            )
+            return all(x == y for x, y in zip(self.__members.values(), other))
         if isinstance(other, AbstractSet):
             if len(self) != len(other):
                 return False
-- 
2.43.0


From 092e0885f67784f2e85df6fe618e033a8b7d22f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 38/65] fix: JSSets containing the same NaN are not equal

Equality is documented to be that of lists of the members, and lists (as
JSMap and dict do) consider an object equal to itself.
---
 src/v8serialize/jstypes/jsset.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index faea831..b6e5e6a 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -146,7 +146,9 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             if len(self) != len(other):
                 return False
             # Two JSSets are equal if they contain equal members in the same order
-            return all(x == y for x, y in zip(self.__members.values(), other))
+            return all(
+                x is y or x == y for x, y in zip(self.__members.values(), other)
+            )
         if isinstance(other, AbstractSet):
             if len(self) != len(other):
                 return False
@@ -157,7 +159,9 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             except Exception:
                 # We have an unhashable member. Fall back to comparing the other
                 # items in order, in the same way as if it were a JSSet
-                return all(x == y for x, y in zip(self.__members.values(), other))
+                return all(
+                    x is y or x == y for x, y in zip(self.__members.values(), other)
+                )
             return self_as_set == other
         return NotImplemented
 
-- 
2.43.0


From 2fd4fc491bf70bc9a0fd9ef067e77d0d35471aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:20 +0000
Subject: [PATCH 39/65] fix: arrays containing the same NaN are not equal

Lists, as well as JSMap and the text properties of JSObject, consider an
object equal to itself.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 2f77684..287276f 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -98,7 +98,7 @@ class AbstractArrayProperties(ArrayProperties[T], MutableSequence["T | JSHoleTyp
                 len(self) == len(other)
                 and self.elements_used == other.elements_used
                 and all(
-                    self[i] == other[i]
+                    self[i] is other[i] or self[i] == other[i]
                     for i in self.element_indexes(order=Order.UNORDERED)
                 )
             )
-- 
2.43.0


From b5a5d27ce5be03dd3dc48d224d9af321a1f1b26a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:24 +0000
Subject: [PATCH 40/65] fix: JSSet symmetric difference with dict keys matched
 members with ==

It asked the other side to subtract us, which dict key views do for any
iterable with their own rules, and fail to for unhashable members.
---
 src/v8serialize/jstypes/jsset.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index b6e5e6a..fac9ab1 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -193,6 +193,13 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             other = JSSet(other)
         return super(JSSet, self).__sub__(other)  # type: ignore[operator,return-value]
 
+    def __xor__(self, other: Iterable[U]) -> JSSet[U | T]:  # type: ignore[override,misc]
+        if isinstance(other, Iterable) and not isinstance(other, JSSet):
+            other = JSSet(other)
+        return super(JSSet, self).__xor__(other)  # type: ignore[operator,return-value]
+
+    __rxor__ = __xor__
+
     # Overrides for optimisation purposes
     def clear(self) -> None:
         self.__members.clear()
@@ -209,4 +216,3 @@ Equality_comparisons_and_sameness#same-value-zero_equality
 
         def __and__(self, other: Iterable[object]) -> Self: ...
         def __or__(self, other: Iterable[U]) -> JSSet[U | T]: ...
-        def __xor__(self, other: Iterable[U]) -> JSSet[U | T]: ...
-- 
2.43.0


From fa463d3f63913b5f35660cf78c3996e644a4a002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:49 +0000
Subject: [PATCH 41/65] fix: JSSet ^= toggled members a regular set contains
 more than once

Regular sets can contain several objects that are the same member to us, such
as NaNs.
---
 src/v8serialize/jstypes/jsset.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index fac9ab1..b12b1de 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -200,6 +200,11 @@ Equality_comparisons_and_sameness#same-value-zero_equality
 
     __rxor__ = __xor__
 
+    def __ixor__(self, it: Iterable[T]) -> Self:  # type: ignore[override,misc]
+        if isinstance(it, Iterable) and not isinstance(it, JSSet):
+            it = JSSet(it)
+        return super(JSSet, self).__ixor__(it)  # type: ignore[arg-type]
+
     # Overrides for optimisation purposes
     def clear(self) -> None:
         self.__members.clear()
@@ -211,7 +216,6 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     if TYPE_CHECKING:
         # Base types require `it` arguments to be sets, but any iterable is OK
         def __iand__(self, it: Iterable[object]) -> Self: ...
-        def __ixor__(self, it: Iterable[T]) -> Self: ...  # type: ignore[override,misc]
         def __isub__(self, it: Iterable[object]) -> Self: ...
 
         def __and__(self, other: Iterable[object]) -> Self: ...
-- 
2.43.0


From f5363fa544fe2f0114ba11fd428539b13c2dc2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:30 +0000
Subject: [PATCH 42/65] fix: cycles of different structure compare equal

An object that occurs again while it is being compared was considered equal to
any other object that also occurs again, instead of the one it is being
compared with. So a -> b -> a was equal to x -> y -> y.
---
 src/v8serialize/_recursive_eq.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 82bbcaf..f8e9a20 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -4,7 +4,7 @@ from _thread import get_ident
 from functools import wraps
 from typing import Final, TypeVar
 
-_RUNNING_EQ_KEYS: Final[set[tuple[int, int]]] = set()
+_RUNNING_EQ_KEYS: Final[dict[tuple[int, int], int]] = {}
 
 _T = TypeVar("_T")
 
@@ -43,29 +43,30 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         thread_id = get_ident()
         self_key = id(self), thread_id
         other_key = id(other), thread_id
-        self_running = self_key in _RUNNING_EQ_KEYS
-        other_running = other_key in _RUNNING_EQ_KEYS
+        self_running = _RUNNING_EQ_KEYS.get(self_key)
+        other_running = _RUNNING_EQ_KEYS.get(other_key)
 
         # If either side already has __eq__ running in the call stack, we must
         # stop recursing, otherwise we'll infinitely loop.
-        if self_running or other_running:
-            # If both sides were already seen, we might be equal (caller decides)
-            # If only one side was running, we can't be equal, as there's a
+        if self_running is not None or other_running is not None:
+            # If both sides were already seen being compared with each other, we
+            # might be equal (caller decides). If only one side was running, or
+            # they were running with others, we can't be equal, as there's a
             # different structure referencing this point.
-            return self_running and other_running
+            return self_running == id(other)
 
         # Register these objects as running so that we won't descend into them
         # if they are referenced again.
-        _RUNNING_EQ_KEYS.add(self_key)
-        _RUNNING_EQ_KEYS.add(other_key)
+        _RUNNING_EQ_KEYS[self_key] = id(other)
+        _RUNNING_EQ_KEYS[other_key] = id(self)
 
         # Allow the type to do its own equality check as normal, descending into
         # children if required.
         try:
             eq = wrapped_eq(self, other)
         finally:
-            _RUNNING_EQ_KEYS.remove(self_key)
-            _RUNNING_EQ_KEYS.remove(other_key)
+            del _RUNNING_EQ_KEYS[self_key]
+            del _RUNNING_EQ_KEYS[other_key]
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From 300c59added1f9de589ce45e319d2e2a1a3d113f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:45 +0000
Subject: [PATCH 43/65] fix: a negative length gives an empty read-only
 JSArrayBuffer

---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 6666356..fda1c86 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -164,7 +164,7 @@ Reference/Global_Objects/ArrayBuffer
                 data = memoryview(data).toreadonly()
         else:
             byte_length = byte_length or 0
-            data = b"\x00" * byte_length if readonly else bytearray(byte_length)
+            data = bytes(byte_length) if readonly else bytearray(byte_length)
 
         assert isinstance(data, Sized)
         max_byte_length = len(data) if max_byte_length is None else max_byte_length
-- 
2.43.0


From 02085a6c37a5188713e816be745b2f47c9bf2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:45 +0000
Subject: [PATCH 44/65] fix: DataViewBuffer methods zero the bytes of values
 they refuse to write

---
 src/v8serialize/jstypes/jsbuffers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index fda1c86..10a33aa 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -956,7 +956,9 @@ data in bulk.
                 byte_length=struct.calcsize(struct_format),
                 buffer_byte_length=len(self.buffer),
             )
-        struct.pack_into(struct_format, buffer, byte_offset, *values)
+        # pack_into() would leave zeros behind when it fails to encode a value
+        encoded = struct.pack(struct_format, *values)
+        buffer[byte_offset : byte_offset + len(encoded)] = encoded
 
     def get_bigint64(self, byte_offset: int, little_endian: bool = False) -> int:
         return self.read("<q" if little_endian else ">q", byte_offset)[0]  # type: ignore[no-any-return]
-- 
2.43.0


From 0ee49d49b3c91284fa260db08ee6767bfe3e2932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 45/65] fix: errors made from SyntaxErrors have the source
 location as their message

---
 src/v8serialize/jstypes/jserror.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jserror.py b/src/v8serialize/jstypes/jserror.py
index d995b29..49f6f2c 100644
--- a/src/v8serialize/jstypes/jserror.py
+++ b/src/v8serialize/jstypes/jserror.py
@@ -123,7 +123,11 @@ def _get_message(tbe: TracebackException) -> str | None:
     # error name via the name property, because it has a fixed set of values.
     # The message property is not displayed by V8 runtimes I've tried, they just
     # show the stack string.
-    return next((ln.rstrip() for ln in tbe.format_exception_only()), None)
+    # The indented lines before a SyntaxError's message show the source location.
+    return next(
+        (ln.rstrip() for ln in tbe.format_exception_only() if not ln.startswith("  ")),
+        None,
+    )
 
 
 @recursive_eq
-- 
2.43.0


From 2c6130a96648d9b858aba300bdf1c9fe5de0b217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:10 +0000
Subject: [PATCH 46/65] fix: errors made from exceptions lose causes that were
 also suppressed contexts

---
 src/v8serialize/jstypes/jserror.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jserror.py b/src/v8serialize/jstypes/jserror.py
index 49f6f2c..dabfd1b 100644
--- a/src/v8serialize/jstypes/jserror.py
+++ b/src/v8serialize/jstypes/jserror.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from abc import ABC
 from dataclasses import dataclass, field
 from traceback import TracebackException
@@ -73,7 +74,13 @@ class JSErrorData(_JSErrorData, AnyJSError, ABC):
     @classmethod
     def from_exception(cls, exc: BaseException) -> Self:
         """Create `JSErrorData` that reproduces the details of a Python Exception."""
-        return cls.from_traceback_exception(TracebackException.from_exception(exc))
+        if sys.version_info < (3, 10):
+            tbe = TracebackException.from_exception(exc)
+        else:
+            # Without compact, a cause which is also the (suppressed) context of
+            # an earlier exception is dropped.
+            tbe = TracebackException.from_exception(exc, compact=True)
+        return cls.from_traceback_exception(tbe)
 
     @classmethod
     def from_traceback_exception(cls, tbe: TracebackException) -> Self:
-- 
2.43.0


From 591947421a8b5c05d063f40ca2a358683623720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 47/65] fix: errors made from exceptions lose causes also shown
 in an exception group

---
 src/v8serialize/jstypes/jserror.py | 31 ++++++++++++++++++++++++------
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/v8serialize/jstypes/jserror.py b/src/v8serialize/jstypes/jserror.py
index dabfd1b..b818c05 100644
--- a/src/v8serialize/jstypes/jserror.py
+++ b/src/v8serialize/jstypes/jserror.py
@@ -74,12 +74,8 @@ class JSErrorData(_JSErrorData, AnyJSError, ABC):
     @classmethod
     def from_exception(cls, exc: BaseException) -> Self:
         """Create `JSErrorData` that reproduces the details of a Python Exception."""
-        if sys.version_info < (3, 10):
-            tbe = TracebackException.from_exception(exc)
-        else:
-            # Without compact, a cause which is also the (suppressed) context of
-            # an earlier exception is dropped.
-            tbe = TracebackException.from_exception(exc, compact=True)
+        tbe = _get_traceback_exception(exc)
+        _restore_causes(tbe, exc)
         return cls.from_traceback_exception(tbe)
 
     @classmethod
@@ -124,6 +120,29 @@ class JSErrorData(_JSErrorData, AnyJSError, ABC):
         return js_error, js_error
 
 
+def _get_traceback_exception(exc: BaseException) -> TracebackException:
+    if sys.version_info < (3, 10):
+        return TracebackException.from_exception(exc)
+    # Without compact, a cause which is also the (suppressed) context of an
+    # earlier exception is dropped.
+    return TracebackException.from_exception(exc, compact=True)
+
+
+def _restore_causes(tbe: TracebackException, exc: BaseException) -> None:
+    # TracebackException drops causes it has seen elsewhere, for example as the
+    # context of a sub-exception of a group.
+    seen = {id(exc)}
+    while exc.__cause__ is not None:
+        exc = exc.__cause__
+        if id(exc) in seen:
+            tbe.__cause__ = None
+            return
+        seen.add(id(exc))
+        if tbe.__cause__ is None:
+            tbe.__cause__ = _get_traceback_exception(exc)
+        tbe = tbe.__cause__
+
+
 def _get_message(tbe: TracebackException) -> str | None:
     # This includes the exception type, like "ValueError: too low". That'
     # probably a good thing for JavaScript because we can't communicate the
-- 
2.43.0


From e0ef0280170e82b64c15e8d2dc13c02597f14e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:37 +0000
Subject: [PATCH 48/65] fix: dates read in time zones whose offset has a
 fraction of a second are off

---
 src/v8serialize/decode.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index a831687..2a884eb 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -8,7 +8,7 @@ import struct
 import sys
 from collections.abc import Iterable, Mapping, MutableMapping, MutableSet, Sequence
 from dataclasses import dataclass, field
-from datetime import datetime, timedelta, tzinfo
+from datetime import datetime, timedelta, timezone, tzinfo
 from functools import partial
 from types import MappingProxyType
 from typing import (
@@ -541,9 +541,12 @@ class ReadableTagStream:
             epoch_s, fraction = divmod(
                 timedelta(milliseconds=epoch_ms), timedelta(seconds=1)
             )
-            result = datetime.fromtimestamp(epoch_s, tz=tz).replace(
-                microsecond=fraction.microseconds
-            )
+            # UTC offsets can include fractions of seconds, so these are set first
+            result = datetime.fromtimestamp(
+                epoch_s, tz=None if tz is None else timezone.utc
+            ).replace(microsecond=fraction.microseconds)
+            if tz is not None:
+                result = result.astimezone(tz)
         except (ValueError, OverflowError, OSError) as e:
             self.throw(
                 f"Date cannot be represented as a datetime: {epoch_ms=}", cause=e
-- 
2.43.0


From d4c3bafbf7160d11a665632ed5f060c8f628b1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:25 +0000
Subject: [PATCH 49/65] fix: dates in time zones whose offset has microseconds
 are written imprecisely

---
 src/v8serialize/encode.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 6a49a4b..eec5b42 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -8,7 +8,7 @@ from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
 from dataclasses import dataclass, field
-from datetime import datetime
+from datetime import datetime, timedelta, timezone
 from functools import lru_cache, partial
 from types import TracebackType
 from typing import (
@@ -83,6 +83,8 @@ if TYPE_CHECKING:
 T = TypeVar("T")
 T_con = TypeVar("T_con", contravariant=True)
 
+UNIX_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
 
 @dataclass(init=False)
 class EncodeV8SerializeError(V8SerializeError, ValueError):
@@ -446,13 +448,17 @@ class WritableTagStream:
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
         # timestamp() * 1000 would add rounding errors, making whole milliseconds
         # fractional, which JavaScript truncates.
-        try:
-            epoch_s = value.replace(microsecond=0).timestamp()
-        except (ValueError, OverflowError) as e:  # local times near the limits
-            raise EncodeV8SerializeError(
-                f"datetime cannot be represented as a timestamp: {value}"
-            ) from e
-        epoch_ms = (round(epoch_s * 10**6) + value.microsecond) / 1000
+        if value.utcoffset() is not None:
+            epoch_us = (value - UNIX_EPOCH) // timedelta(microseconds=1)
+        else:
+            try:
+                epoch_s = value.replace(microsecond=0, tzinfo=None).timestamp()
+            except (ValueError, OverflowError) as e:  # local times near the limits
+                raise EncodeV8SerializeError(
+                    f"datetime cannot be represented as a timestamp: {value}"
+                ) from e
+            epoch_us = round(epoch_s) * 10**6 + value.microsecond
+        epoch_ms = epoch_us / 1000
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From c41a06d856defa19ab77523c68d73de6c6136cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 50/65] fix: printing truncated properties with an empty
 fillvalue raises IndexError

---
 src/v8serialize/jstypes/_repr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..658c8ec 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -176,7 +176,7 @@ class JSRepr(RecursiveReprMixin, Repr):
                 return f"{type_name}({kwargs_repr})"
 
             array_repr = self._join(array_pieces, level)
-            sep = "" if kwargs_repr[0].isspace() else " "
+            sep = "" if kwargs_repr[:1].isspace() else " "
             return f"{type_name}({{{array_repr}}},{sep}{kwargs_repr})"
 
         prop_pieces: list[str] = array_pieces
@@ -235,7 +235,7 @@ class JSRepr(RecursiveReprMixin, Repr):
                 return f"JSArray({kwargs_repr})"
 
             array_repr = self._join(array_pieces, level)
-            sep = "" if kwargs_repr[0].isspace() else " "
+            sep = "" if kwargs_repr[:1].isspace() else " "
             return f"JSArray([{array_repr}],{sep}{kwargs_repr})"
 
         prop_pieces: list[str] = []
-- 
2.43.0


From 1efc2045dd8a0ae31e50a5074839c70c299d51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 51/65] fix: printing JS types that contain integers over 4300
 digits raises ValueError

---
 src/v8serialize/jstypes/_repr.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 658c8ec..eba5b54 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -124,6 +124,17 @@ class JSRepr(RecursiveReprMixin, Repr):
             def _join(self, pieces: Iterable[str], level: int) -> str:
                 return ", ".join(pieces)
 
+    def repr_int(self, x: int, level: int) -> str:
+        try:
+            return super(JSRepr, self).repr_int(x, level)
+        except ValueError:  # more digits than sys.get_int_max_str_digits()
+            repr_ = hex(x)
+            if len(repr_) > self.maxlong:
+                i = max(0, (self.maxlong - 3) // 2)
+                j = max(0, self.maxlong - 3 - i)
+                repr_ = f"{repr_[:i]}{self.fillvalue}{repr_[len(repr_) - j:]}"
+            return repr_
+
     # We need to maintain insertion order in the repr because that's a defined
     # behaviour of JavaScript objects. The default repr behaviour is to sort
     # dict keys, so we can't reuse dict's repr for args to JSObject/JSArray.
-- 
2.43.0


From f457df5fe657b5a3a8a7f27085a76a2440ecab5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 52/65] fix: instances of subclasses of JS types are printed as
 ...

---
 src/v8serialize/jstypes/_repr.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index eba5b54..e0cb7ca 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -135,6 +135,21 @@ class JSRepr(RecursiveReprMixin, Repr):
                 repr_ = f"{repr_[:i]}{self.fillvalue}{repr_[len(repr_) - j:]}"
             return repr_
 
+    def repr_instance(self, x: object, level: int) -> str:
+        # Subclasses of JS types would be printed by this JSRepr again, which takes
+        # them to be a recursive reference.
+        for base in type(x).__mro__[1:]:
+            if (
+                base.__module__.startswith("v8serialize.")
+                and type(x).__repr__ is base.__repr__
+                and hasattr(self, f"repr_{base.__name__}")
+            ):
+                repr_: str = getattr(self, f"repr_{base.__name__}")(x, level)
+                if repr_.startswith(f"{base.__name__}("):
+                    return f"{type(x).__name__}{repr_[len(base.__name__):]}"
+                return repr_
+        return super(JSRepr, self).repr_instance(x, level)
+
     # We need to maintain insertion order in the repr because that's a defined
     # behaviour of JavaScript objects. The default repr behaviour is to sort
     # dict keys, so we can't reuse dict's repr for args to JSObject/JSArray.
-- 
2.43.0


From fb3f17fafbd1f94216ef4ab41b612d75155a80f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:15 +0000
Subject: [PATCH 53/65] fix: arrays ending with holes are printed without their
 length

An array of nothing but holes was printed as JSArray(), and sparse arrays
with holes at the end lost them.
---
 src/v8serialize/jstypes/_repr.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index e0cb7ca..9a9c480 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -10,7 +10,7 @@ from reprlib import Repr
 from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
 
 from v8serialize.constants import JSErrorName
-from v8serialize.jstypes.jsarrayproperties import SparseArrayProperties
+from v8serialize.jstypes.jsarrayproperties import JSHole, SparseArrayProperties
 from v8serialize.jstypes.jsbuffers import JSArrayBuffer
 
 if TYPE_CHECKING:
@@ -163,7 +163,7 @@ class JSRepr(RecursiveReprMixin, Repr):
         type_name: str = "JSObject",
         maxprops: int | None = None,
     ) -> str:
-        if len(obj) == 0:
+        if len(obj) == 0 and len(obj.array) == 0:
             return f"{type_name}()"
 
         if level <= 0:
@@ -173,13 +173,17 @@ class JSRepr(RecursiveReprMixin, Repr):
         repr1 = self.repr1
 
         array_pieces: list[str] = []
-        if obj.array.elements_used > 0:
+        if len(obj.array) > 0:
             array_pieces = [
                 f"{i!r}: {repr1(v, level - 1)}"
                 for i, v in islice(obj.array.elements().items(), maxprops)
             ]
             if obj.array.elements_used > maxprops:
                 array_pieces.append(self.fillvalue)
+            elif obj.array[-1] is JSHole:
+                # the length is only known from the last element that exists
+                # without the hole at the end
+                array_pieces.append(f"{len(obj.array) - 1!r}: {JSHole!r}")
             maxprops -= obj.array.elements_used
 
         all_properties_can_be_kwargs = obj.properties and all(
@@ -218,7 +222,7 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{type_name}({{{props_repr}}})"
 
     def repr_JSArray(self, obj: JSArray, level: int) -> str:
-        if len(obj) == 0:
+        if len(obj) == 0 and len(obj.array) == 0:
             return "JSArray()"
 
         if level <= 0:
-- 
2.43.0


From 2fae0f9f057fd33fa021754217a61b1245510a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 54/65] fix: printing objects with keys that are no argument
 names gives invalid text

Keys that are Python keywords were printed as keyword arguments, and keys
that Python normalizes as identifiers were printed as another key.
---
 src/v8serialize/jstypes/_repr.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 9a9c480..ff2c3d8 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -1,11 +1,13 @@
 from __future__ import annotations
 
 import sys
+import unicodedata
 import warnings
 from _thread import get_ident
 from collections.abc import Collection, Iterable
 from contextlib import contextmanager
 from itertools import islice
+from keyword import iskeyword
 from reprlib import Repr
 from typing import TYPE_CHECKING, Any, ContextManager, Final, Generator, overload
 
@@ -187,7 +189,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= obj.array.elements_used
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _is_kwarg_name(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -246,7 +248,7 @@ class JSRepr(RecursiveReprMixin, Repr):
             maxprops -= len(obj.array)
 
         all_properties_can_be_kwargs = obj.properties and all(
-            isinstance(k, str) and k.isidentifier() for k in obj.properties
+            _is_kwarg_name(k) for k in obj.properties
         )
         if all_properties_can_be_kwargs:
             kwarg_pieces = [
@@ -430,6 +432,17 @@ class JSRepr(RecursiveReprMixin, Repr):
         return f"{repr_[:-1]}…{repr_[-1:]}"
 
 
+def _is_kwarg_name(key: object) -> bool:
+    """Check if a property key can be written as a keyword argument name."""
+    return (
+        isinstance(key, str)
+        and key.isidentifier()
+        and not iskeyword(key)
+        # Python normalizes identifiers, so others would become a different key
+        and unicodedata.is_normalized("NFKC", key)
+    )
+
+
 def _contains_single_piece(pieces: list[str]) -> bool:
     if len(pieces) != 1:
         return False
-- 
2.43.0


From 77f2d0cf3003e0a5744375594428aa06c3adc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 55/65] fix: resizable buffers at their maximum length are
 printed as fixed-length ones

---
 src/v8serialize/jstypes/_repr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index ff2c3d8..00fc193 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -354,7 +354,9 @@ class JSRepr(RecursiveReprMixin, Repr):
         obj_data_repr: str
         try:
             with memoryview(obj_data) as mv:
-                needs_max_byte_length = mv.nbytes != obj.max_byte_length
+                needs_max_byte_length = (
+                    obj.resizable or mv.nbytes != obj.max_byte_length
+                )
                 needs_readonly = mv.readonly
                 # bytearray() can be repr'd as bytes because the constructor
                 # copies bytes to a bytearray by default.
-- 
2.43.0


From 72b566ccf472840f3262bbcabd74bf65c946a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 56/65] fix: integers too large for a double raise struct.error

---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index eec5b42..fc37409 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -261,7 +261,10 @@ class WritableTagStream:
         tag: Literal[SerializationTag.kDouble] | None = SerializationTag.kDouble,
     ) -> None:
         try:
-            encoded = struct.pack("<d", value)
+            # struct.pack() raises struct.error for ints that are too large
+            encoded = struct.pack(
+                "<d", float(value) if isinstance(value, int) else value
+            )
         except OverflowError as e:
             raise EncodeV8SerializeError(
                 "Python int is too large to represent as Double"
-- 
2.43.0


From 7d938bacb4041822f1fa22acc89871874a423417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:09 +0000
Subject: [PATCH 57/65] fix: negative serialized ids refer to objects from the
 end of the log

---
 src/v8serialize/_references.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 5b5e0ab..7dffd76 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -86,6 +86,8 @@ class SerializedObjectLog:
 
     def get_object(self, serialized_id: SerializedId) -> object:
         try:
+            if serialized_id < 0:  # not an index from the end of the list
+                raise IndexError(serialized_id)
             value = self._object_by_serialized_id[serialized_id]
         except IndexError:
             raise SerializedIdOutOfRangeV8SerializeError(
-- 
2.43.0


From 71fbade3577d74415b2bd4f93d53ad231a174a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:55 +0000
Subject: [PATCH 58/65] fix: views of inaccessible buffers were equal to every
 other empty view

---
 src/v8serialize/jstypes/jsbuffers.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 10a33aa..f12a534 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -630,14 +630,22 @@ the itemsize when the view does not have an explicit byte_length"""
             return True
         if isinstance(value, JSArrayBufferView):
             value = cast("JSArrayBufferView[AnyArrayBufferData, AnyBufferT]", value)
-            try:
-                with (
-                    self.get_buffer(readonly=True) as self_data,
-                    value.get_buffer(readonly=True) as value_data,
-                ):
-                    return self_data == value_data
-            except NotImplementedError:
-                pass
+            if not (
+                self.__is_backing_buffer_accessible()
+                and value.__is_backing_buffer_accessible()
+            ):
+                # There's no data to compare, so the same region must be viewed
+                return (
+                    self.view_tag is value.view_tag
+                    and self.backing_buffer == value.backing_buffer
+                    and self.item_offset == value.item_offset
+                    and self.byte_length == value.byte_length
+                )
+            with (
+                self.get_buffer(readonly=True) as self_data,
+                value.get_buffer(readonly=True) as value_data,
+            ):
+                return self_data == value_data
         return NotImplemented
 
     def __hash__(self) -> int:
-- 
2.43.0


From e54dc41dcf54dc013452ba669cc15b7324c1477d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:36 +0000
Subject: [PATCH 59/65] fix: equal views of different types had different
 hashes

---
 src/v8serialize/jstypes/jsbuffers.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index f12a534..e017201 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -649,14 +649,15 @@ the itemsize when the view does not have an explicit byte_length"""
         return NotImplemented
 
     def __hash__(self) -> int:
-        try:
-            with self.get_buffer_as_memoryview(readonly=True) as data:
-                # data may not be hashable, depending on backing buffer
-                return hash(data)
-        except NotImplementedError as e:
-            raise TypeError(
-                f"cannot hash {type(self).__name__} with inaccessible buffer"
-            ) from e
+        if not self.__is_backing_buffer_accessible():
+            return hash((self.backing_buffer, self.item_offset, self.byte_length))
+        with self.get_buffer_as_memoryview(readonly=True) as data:
+            hash(data)  # data may not be hashable, depending on backing buffer
+        # Views of different types are equal if their items are equal
+        with self.get_buffer(readonly=True) as items:
+            values = items.buffer if isinstance(items, DataViewBuffer) else items
+            # The hash of nan differs from one nan object to another
+            return hash(tuple(None if x != x else x for x in values))
 
     def __repr__(self) -> str:
         arg_pieces = [
-- 
2.43.0


From 2c1f33186087429ffec1d3427374264c4f2b1075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:26 +0000
Subject: [PATCH 60/65] fix: copies of array properties shared their elements

---
 src/v8serialize/jstypes/jsarrayproperties.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 287276f..1980be9 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -245,6 +245,13 @@ class DenseArrayProperties(AbstractArrayProperties[T]):
         self._items = _items
         self._elements_used = elements_used
 
+    # Copies must not share our list
+    def __getstate__(self) -> object:
+        return list(self._items), self._elements_used
+
+    def __setstate__(self, state: tuple[list[T | JSHoleType], int]) -> None:
+        self._items, self._elements_used = state
+
     def resize(self, length: int) -> None:
         if length < 0 or length > MAX_ARRAY_LENGTH:
             raise ValueError(f"length must be >= 0 and < {MAX_ARRAY_LENGTH_REPR}")
@@ -445,6 +452,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
                 f"initial item indexes must be 0 <= index < 2**32-1: {invalid_index}"
             )
 
+    # Copies must not share our dict and key list
+    def __getstate__(self) -> object:
+        return dict(self._items), self._max_index
+
+    def __setstate__(self, state: tuple[dict[int, T], int]) -> None:
+        self._items, self._max_index = state
+        self._sorted_keys = None
+
     def resize(self, length: int) -> None:
         if length < 0 or length > MAX_ARRAY_LENGTH:
             raise ValueError(f"length must be >= 0 and < {MAX_ARRAY_LENGTH_REPR}")
-- 
2.43.0


From bce43e0ad4e0189e655e8ea5b660ac84736327c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:26 +0000
Subject: [PATCH 61/65] fix: copies of JSObject and JSArray shared their
 properties, and deep copies and pickles failed

---
 src/v8serialize/jstypes/jsobject.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index d2eb3be..8840c86 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from abc import ABC
 from collections.abc import Iterable, Iterator, Mapping, MutableMapping
+from copy import copy
 from dataclasses import dataclass
 from itertools import chain
 from types import MappingProxyType
@@ -216,6 +217,25 @@ JavaScript/Reference/Global_Objects/Array
     def __iter__(self) -> Iterator[str | int]:
         return chain(self.array.element_indexes(), self._properties)
 
+    # The array and properties can't be shared with a copy, and the read-only view
+    # of _properties can't be copied.
+    def __getstate__(self) -> object:
+        attributes = {
+            name: value
+            for name, value in getattr(self, "__dict__", {}).items()
+            if name not in JSObject.__annotations__
+        }
+        return copy(self.array), dict(self._properties), attributes
+
+    def __setstate__(
+        self,
+        state: tuple[ArrayProperties[T], dict[str, T], Mapping[str, object]],
+    ) -> None:
+        self.array, self._properties, attributes = state
+        self.properties = MappingProxyType(self._properties)
+        for name, value in attributes.items():
+            setattr(self, name, value)
+
     def __repr__(self) -> str:
         return _repr.js_repr(self)
 
-- 
2.43.0


From dc142717ad18eb9f6bce4c59f4d7611a403ca042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:11 +0000
Subject: [PATCH 62/65] fix: errors cannot be copied or unpickled

---
 src/v8serialize/_errors.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/v8serialize/_errors.py b/src/v8serialize/_errors.py
index 05e1fc8..794b877 100644
--- a/src/v8serialize/_errors.py
+++ b/src/v8serialize/_errors.py
@@ -24,6 +24,11 @@ class V8SerializeError(Exception):
     def message(self) -> str:
         return cast(str, self.args[0])
 
+    def __reduce__(self) -> tuple[object, ...]:
+        # By default exceptions are copied and unpickled by calling their type
+        # with args, but most subclasses require further arguments.
+        return _create_error, (type(self), self.args), self.__dict__
+
     def __str__(self) -> str:
         field_values = [
             (f.name, getattr(self, f.name)) for f in fields(self) if f.name != "message"
@@ -35,6 +40,12 @@ class V8SerializeError(Exception):
         return self.message
 
 
+def _create_error(
+    error_type: type[V8SerializeError], args: tuple[object, ...]
+) -> V8SerializeError:
+    return error_type.__new__(error_type, *args)
+
+
 # TODO: str/repr needs customising to abbreviate the data field
 @dataclass(init=False)
 class DecodeV8SerializeError(V8SerializeError, ValueError):
@@ -97,6 +108,9 @@ class NormalizedKeyError(KeyError):
             f"{self.normalized_key!r} (normalized from {self.raw_key!r})"
         )
 
+    def __reduce__(self) -> tuple[object, ...]:
+        return type(self), (self.normalized_key, self.raw_key), self.__dict__
+
 
 class JSRegExpV8SerializeError(V8SerializeError):
     pass
-- 
2.43.0


From f4c9090373e1477f07b38cc4ef14eb5b70469c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 63/65] fix: sparse arrays copy all elements when few are cut
 off

The proportion of retained elements was compared twice, so that shrinking by
one element copied everything, and shrinking to little deleted one by one.
---
 src/v8serialize/jstypes/jsarrayproperties.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 1980be9..e30e121 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -471,22 +471,19 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
 
         # binary search to find the position of the new length in the key list.
         first_removed = bisect_left(sorted_keys, length)
-        sorted_keys_after = sorted_keys[:first_removed]
 
         proportion_retained = (
-            1 if len(sorted_keys) == 0 else first_removed / len(sorted_keys) <= 0.5
+            1 if len(sorted_keys) == 0 else first_removed / len(sorted_keys)
         )
         if proportion_retained <= 0.5:
             # copy just the retained elements as there are less kept than removed
-            items_after = {i: items[i] for i in sorted_keys_after}
+            self._items = {i: items[i] for i in sorted_keys[:first_removed]}
         else:
             # unset just the removed elements are more are kept
-            items_after = items
             for i in sorted_keys[first_removed:]:
-                del items_after[i]
+                del items[i]
 
-        self._items = items_after
-        self._sorted_keys = sorted_keys_after
+        del sorted_keys[first_removed:]
         self._max_index = length - 1
 
     @property
-- 
2.43.0


From 99c5d66b55fc854416da6f90644e784185827fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 64/65] fix: popping an element of a sparse array renumbers all
 others

---
 src/v8serialize/jstypes/jsarrayproperties.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index e30e121..bedbcb9 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -574,6 +574,10 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             raise NotImplementedError
         i = self._normalise_index(i)
 
+        if i == self._max_index:  # nothing is shifted
+            self.resize(i)
+            return
+
         items = self._items
         items.pop(i, None)
         # Deleting from a list shifts all elements after i back by one
-- 
2.43.0


From c4095a128e86770be6fb6910e0fd041b6784156b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:58 +0000
Subject: [PATCH 65/65] fix: clearing objects and arrays takes quadratic time

---
 src/v8serialize/jstypes/jsobject.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/v8serialize/jstypes/jsobject.py b/src/v8serialize/jstypes/jsobject.py
index 8840c86..a871665 100644
--- a/src/v8serialize/jstypes/jsobject.py
+++ b/src/v8serialize/jstypes/jsobject.py
@@ -211,6 +211,14 @@ JavaScript/Reference/Global_Objects/Array
                     return
             raise NormalizedKeyError(k, raw_key=key)
 
+    # The inherited clear() searches for the first of the remaining elements each
+    # time it deletes one. As when deleting elements, the array keeps its length.
+    def clear(self) -> None:
+        length = len(self.array)
+        self.array.resize(0)
+        self.array.resize(length)
+        self._properties.clear()
+
     def __len__(self) -> int:
         return self.array.elements_used + len(self._properties)
 
-- 
2.43.0

