From 87e369ed4448eba99b6cdca7037cb771feab7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 001/117] fix: tell change callbacks the value that was stored

---
 runtimepy/primitives/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index e186bad..deb7001 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -163,7 +163,10 @@ class Primitive(_Generic[T]):
 
         curr: T = self.raw.value  # type: ignore
         self.raw.value = value
-        self._check_callbacks(curr, value)
+
+        # Report what was actually stored (which may differ from the value
+        # provided, if it needed to be wrapped or rounded).
+        self._check_callbacks(curr, self.raw.value)  # type: ignore
 
     @property
     def scaled(self) -> Numeric:
-- 
2.43.0


From 7d39c1ba4fabaa62878d86dc29ad3270b2f145e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 002/117] fix: allow change callbacks to alter a primitive's
 callbacks

---
 runtimepy/primitives/base.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index deb7001..4426051 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -143,15 +143,16 @@ class Primitive(_Generic[T]):
         """Determine if any callbacks should be serviced."""
 
         if self.callbacks and curr != new:
-            to_remove = []
-            for ident, (callback, once) in self.callbacks.items():
-                callback(curr, new)
+            # Callbacks can register and remove callbacks, or set new values.
+            for ident, (callback, once) in list(self.callbacks.items()):
+                if ident not in self.callbacks:
+                    continue
+
+                # Remove one-time callbacks.
                 if once:
-                    to_remove.append(ident)
+                    self.remove_callback(ident)
 
-            # Remove one-time callbacks.
-            for item in to_remove:
-                self.remove_callback(item)
+                callback(curr, new)
 
     def set_value(self, value: T, timestamp_ns: int = None) -> None:
         """Set a new underlying value."""
-- 
2.43.0


From 3d2085520174e22ce770c03e5212586ac7e8b8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:45 +0000
Subject: [PATCH 003/117] fix: return the stored value from increment()

---
 runtimepy/primitives/int.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/primitives/int.py b/runtimepy/primitives/int.py
index 69895fd..db8539a 100644
--- a/runtimepy/primitives/int.py
+++ b/runtimepy/primitives/int.py
@@ -36,9 +36,11 @@ class BaseIntPrimitive(PrimitiveIsCloseMixin[int]):
     def increment(self, amount: int = 1, timestamp_ns: int = None) -> int:
         """Increment this primitive by some amount and return the new value."""
 
-        new_val: int = self.raw.value + amount  # type: ignore
-        self.set_value(new_val, timestamp_ns=timestamp_ns)
-        return new_val
+        self.set_value(
+            self.raw.value + amount,  # type: ignore
+            timestamp_ns=timestamp_ns,
+        )
+        return self.raw.value  # type: ignore
 
     async def wait_for_value(
         self,
-- 
2.43.0


From 66bb303c9d6d2cbc37ef3a56adc213dc0ed460c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 004/117] fix: no alignment padding in native byte order arrays

---
 runtimepy/primitives/byte_order.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/byte_order.py b/runtimepy/primitives/byte_order.py
index b183db7..c1f2013 100644
--- a/runtimepy/primitives/byte_order.py
+++ b/runtimepy/primitives/byte_order.py
@@ -19,7 +19,8 @@ class ByteOrder(_RuntimeIntEnum):
         """Get the struct formatter for this byte order."""
 
         if self is ByteOrder.NATIVE:
-            return "@"
+            # Not '@', it adds padding when packing multiple elements.
+            return "="
         if self is ByteOrder.LITTLE_ENDIAN:
             return "<"
         if self is ByteOrder.BIG_ENDIAN:
-- 
2.43.0


From 98b5a59c062c0e31dbddf1ebb5fa450b24871be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 005/117] fix: prefix strings with their encoded size

---
 runtimepy/primitives/string.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/string.py b/runtimepy/primitives/string.py
index 05a2ee2..fb50ba0 100644
--- a/runtimepy/primitives/string.py
+++ b/runtimepy/primitives/string.py
@@ -27,7 +27,7 @@ class StringPrimitive:
 
         assert kind.kind.is_integer
         self._value = value
-        self._size = kind(value=len(self._value))
+        self._size = kind(value=len(self._value.encode()))
         self.byte_order = byte_order
 
     def __str__(self) -> str:
@@ -62,7 +62,7 @@ class StringPrimitive:
     def set(self, value: str) -> None:
         """Set a new value for the underlying string."""
         self._value = value
-        self._size.value = len(self._value)
+        self._size.value = len(self._value.encode())
 
     @property
     def size(self) -> int:
-- 
2.43.0


From 1e37c0e2a019b743288d47e0e82298a584ede34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 006/117] fix: keep a primitive's scaling when copying it

---
 runtimepy/primitives/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/primitives/base.py b/runtimepy/primitives/base.py
index 4426051..fee9d6b 100644
--- a/runtimepy/primitives/base.py
+++ b/runtimepy/primitives/base.py
@@ -93,7 +93,7 @@ class Primitive(_Generic[T]):
 
     def __copy__(self) -> "Primitive[T]":
         """Make a copy of this primitive."""
-        return type(self)(value=self.value)
+        return type(self)(value=self.value, scaling=self.scaling)
 
     def copy(self) -> "Primitive[T]":
         """A simple wrapper for copy."""
-- 
2.43.0


From 3ecfae8847ec6841924acbc1463e4279daf22188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 007/117] fix: reject bit flags with a name that is already
 used

---
 runtimepy/primitives/field/fields.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index a181ef7..b6c519f 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -146,6 +146,7 @@ class BitFields(_RuntimepyDictCodec):
     ) -> _BitFlag:
         """Create a new bit flag."""
 
+        assert name not in self.fields, name
         index = self._claim_bits(1, index=index)
 
         result = _BitFlag(
-- 
2.43.0


From 43c11c6540eb4c59be26c42d483dfb676c46e97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 008/117] fix: load bit-fields padding with a non-zero value

---
 runtimepy/primitives/field/fields.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/primitives/field/fields.py b/runtimepy/primitives/field/fields.py
index b6c519f..04c5a65 100644
--- a/runtimepy/primitives/field/fields.py
+++ b/runtimepy/primitives/field/fields.py
@@ -60,9 +60,8 @@ class BitFields(_RuntimepyDictCodec):
 
             # Fields without names are considered padding.
             if not name:
-                assert value == 0, "Can't set padding to non-zero value!"
                 assert enum is None, f"Enum '{enum}' specified for padding!"
-                item["index"] = self.pad(width=width, index=index)
+                item["index"] = self.pad(width=width, index=index, val=value)
                 continue
 
             if width == 1:
-- 
2.43.0


From c87c16809a78722e4751bdc58ae7af949e8daabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 009/117] fix: keep bit-field descriptions when encoding them

---
 runtimepy/primitives/field/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 4fe1265..69779c3 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -131,6 +131,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             result["enum"] = self.enum
         if self.commandable:
             result["commandable"] = True
+        if self.description:
+            result["description"] = self.description
         return result
 
 
-- 
2.43.0


From cdd6e3b2d7fbbab09f22612062806806957ae446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 010/117] fix: reject bit fields that extend past their
 primitive

---
 runtimepy/primitives/field/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/primitives/field/__init__.py b/runtimepy/primitives/field/__init__.py
index 69779c3..acdace6 100644
--- a/runtimepy/primitives/field/__init__.py
+++ b/runtimepy/primitives/field/__init__.py
@@ -111,8 +111,8 @@ class BitField(BitFieldBase, _RegexMixin, _EnumMixin):
             index < raw.kind.bits
         ), f"Field can't start at {index} for {raw.kind}!"
         assert (
-            width <= raw.kind.bits
-        ), f"Field can't be {width}-bits wide for {raw.kind}!"
+            index + width <= raw.kind.bits
+        ), f"Field can't be {width}-bits wide at {index} for {raw.kind}!"
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
         self.name = name
-- 
2.43.0


From f03cb816567089aa1947c47b284ef766c006d3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 011/117] fix: track every element added to an array by length

---
 runtimepy/primitives/array/__init__.py | 28 ++++++++++++++------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/runtimepy/primitives/array/__init__.py b/runtimepy/primitives/array/__init__.py
index 237e3db..c734bbd 100644
--- a/runtimepy/primitives/array/__init__.py
+++ b/runtimepy/primitives/array/__init__.py
@@ -184,29 +184,31 @@ class PrimitiveArray(Serializable):
         """Add to the array by specifying the type of element to add."""
         return self.add(_create(kind), array_length=array_length)
 
+    def _add_element(self, primitive: _AnyPrimitive) -> None:
+        """Add a single element to this array."""
+
+        self._primitives.append(primitive)
+        self._format += primitive.kind.format
+        self.size += primitive.size
+
+        # Add tracking information for the current tail.
+        curr_idx = len(self._primitives)
+        self._bytes_to_index[self.size] = curr_idx
+        self._index_to_bytes[curr_idx] = self.size
+
     def add(self, primitive: _AnyPrimitive, array_length: int = None) -> int:
         """Add another primitive to manage."""
 
         end = self.end
         if isinstance(end, PrimitiveArray):
             if end is self:
-                self._primitives.append(primitive)
-                self._format += primitive.kind.format
-                self.size += primitive.size
+                self._add_element(primitive)
 
                 # Handle array length.
                 if array_length is not None:
                     for _ in range(array_length - 1):
-                        self._primitives.append(
-                            primitive.copy(),  # type: ignore
-                        )
-                        self._format += primitive.kind.format
-                        self.size += primitive.size
-
-                # Add tracking information for the current tail.
-                curr_idx = len(self._primitives)
-                self._bytes_to_index[self.size] = curr_idx
-                self._index_to_bytes[curr_idx] = self.size
+                        self._add_element(primitive.copy())  # type: ignore
+
                 result = self.size
             else:
                 result = end.add(primitive, array_length=array_length)
-- 
2.43.0


From 63848ad3e537d9f390b142b8042fdfecff1f80ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:04 +0000
Subject: [PATCH 012/117] fix: frame entire chains of serializables

---
 runtimepy/primitives/serializable/framer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/primitives/serializable/framer.py b/runtimepy/primitives/serializable/framer.py
index cf9b995..e121ef2 100644
--- a/runtimepy/primitives/serializable/framer.py
+++ b/runtimepy/primitives/serializable/framer.py
@@ -3,6 +3,7 @@ A module implementing a message framing interface for serializables.
 """
 
 # built-in
+from io import BytesIO
 from typing import Optional
 
 # third-party
@@ -63,7 +64,9 @@ class SerializableFramer:
         """
 
         if sample:
-            self.raw += bytes(self.instance)
+            with BytesIO() as stream:
+                self.instance.to_stream(stream)
+                self.raw += stream.getvalue()
             self.elements += 1
 
         result = None
-- 
2.43.0


From 409defed575724ae8a76ced636bcf3d40d424c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 013/117] fix: allow registry items to be compared with each
 other

---
 runtimepy/registry/item.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/registry/item.py b/runtimepy/registry/item.py
index 3c07291..df8f9d5 100644
--- a/runtimepy/registry/item.py
+++ b/runtimepy/registry/item.py
@@ -21,7 +21,9 @@ class RegistryItem(_RuntimepyDictCodec):
 
     def __eq__(self, other) -> bool:
         """Use the integer identifier to determine equivalence."""
-        return bool(self.id == getattr(other, "id", other["id"]))
+        return bool(
+            self.id == (other.id if hasattr(other, "id") else other["id"])
+        )
 
     def init(self, data: _JsonObject) -> None:
         """Perform implementation-specific initialization."""
-- 
2.43.0


From d9f0237e94a2b2649ec1968e55e83fe10e41cdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 014/117] fix: leave two-way mappings unchanged when a pair is
 rejected

---
 runtimepy/mapping.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/runtimepy/mapping.py b/runtimepy/mapping.py
index 34a20bb..b88b0f3 100644
--- a/runtimepy/mapping.py
+++ b/runtimepy/mapping.py
@@ -64,22 +64,19 @@ class TwoWayNameMapping(_RegexMixin, LoggerMixin, _Generic[T]):
 
         assert self.validate_name(name), f"Invalid name '{name}'!"
 
+        # Ensure the mappings are consistent (before changing either).
+        curr_name = self._mapping.get(key, name)
+        assert curr_name == name, f"{curr_name} != {name} ({key})"
+        curr_key = self._reverse.get(name, key)
+        assert curr_key == key, f"{curr_key} != {key} ({name})"
+
         # Add to the key->name mapping.
-        if key not in self._mapping:
-            self._mapping[key] = name
-        else:
-            # Ensure the mappings are consistent.
-            curr_name = self._mapping[key]
-            assert curr_name == name, f"{curr_name} != {name} ({key})"
+        self._mapping[key] = name
 
         # Add to the name->key mapping.
         if name not in self._reverse:
             self._reverse[name] = key
             self.registered_order.append(name)
-        else:
-            # Ensure the mappings are consistent.
-            curr_key = self._reverse[name]
-            assert curr_key == key, f"{curr_key} != {key} ({name})"
 
     def load_key_to_name(self, mapping: KeyToName[T]) -> None:
         """Load a key-to-name mapping."""
-- 
2.43.0


From 55759f3571e41f93de253aed72fde79fe7510a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 015/117] fix: track registration order in boolean registries

---
 runtimepy/registry/bool.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/runtimepy/registry/bool.py b/runtimepy/registry/bool.py
index ec76935..306e31e 100644
--- a/runtimepy/registry/bool.py
+++ b/runtimepy/registry/bool.py
@@ -21,6 +21,5 @@ class BooleanRegistry(_TwoWayNameMapping[bool]):
         ):
             return False
 
-        self._mapping[value] = name
-        self._reverse[name] = value
+        self._set(value, name)
         return True
-- 
2.43.0


From ea5abeda3979c3737ac96faf58a7cd39e9619e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 016/117] fix: keep a protocol's build when copying or
 importing it

---
 runtimepy/codec/protocol/base.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 9ee6de7..824003a 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -110,7 +110,8 @@ class ProtocolBase:
             build = []
         for item in build:
             if isinstance(item, int):
-                self._add_bit_fields(self._fields.fields[item], track=False)
+                # These fields already belong to the manager.
+                self.array.add(self._fields.fields[item].raw)
             elif isinstance(item, str):
                 assert serializables, (item, serializables)
                 self.add_field(item, serializable=serializables[item])
@@ -127,6 +128,9 @@ class ProtocolBase:
         # Ensure all serializables were handled via build.
         assert not serializables, serializables
 
+        # This instance can be copied and exported too.
+        self._build = list(build)
+
     def __copy__(self: T) -> T:
         """Create another protocol instance from this one."""
 
@@ -201,13 +205,12 @@ class ProtocolBase:
 
         return result
 
-    def _add_bit_fields(self, fields: _BitFields, track: bool = True) -> None:
+    def _add_bit_fields(self, fields: _BitFields) -> None:
         """Add a bit-fields instance."""
 
         idx = self._fields.add(fields)
         self.array.add(fields.raw)
-        if track:
-            self._build.append(idx)
+        self._build.append(idx)
 
     @contextmanager
     def add_bit_fields(
-- 
2.43.0


From 2e92caf4675491fb6ffa306d155c648e9bdc7660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 017/117] fix: keep a protocol's identifier when copying it

---
 runtimepy/codec/protocol/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 824003a..0d86f44 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -139,6 +139,7 @@ class ProtocolBase:
             names=self.names,
             fields=_copy(self._fields),
             build=self._build,
+            identifier=self.id,
             byte_order=self.array.byte_order,
             serializables={
                 key: val.copy_without_chain()
-- 
2.43.0


From 8fb6a08d4a4321a502d2172cc8df00046463436d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 018/117] fix: copy exactly the serializables that belong to a
 protocol

---
 runtimepy/codec/protocol/base.py | 36 +++++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index 0d86f44..abb36e9 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -105,6 +105,9 @@ class ProtocolBase:
         # Keep track of named serializables.
         self.serializables: SerializableMap = {}
 
+        # The number of links in the array's chain that belong to each one.
+        self._links: dict[str, int] = {}
+
         # Add fields if necessary.
         if build is None:
             build = []
@@ -142,11 +145,22 @@ class ProtocolBase:
             identifier=self.id,
             byte_order=self.array.byte_order,
             serializables={
-                key: val.copy_without_chain()
-                for key, val in self.serializables.items()
+                key: self._copy_serializable(key) for key in self.serializables
             },
         )
 
+    def _copy_serializable(self, name: str) -> Serializable:
+        """Copy a named serializable and only the links that belong to it."""
+
+        curr = self.serializables[name]
+        result: Serializable = curr.copy_without_chain()
+        for _ in range(self._links[name] - 1):
+            assert curr.chain is not None
+            curr = curr.chain
+            result.end.assign(curr.copy_without_chain())
+
+        return result
+
     def register_name(self, name: str) -> int:
         """Register the field name."""
 
@@ -162,7 +176,23 @@ class ProtocolBase:
         self.register_name(name)
         self.serializables[name] = serializable
         self._build.append(name)
-        return self.array.add_to_end(serializable, array_length=array_length)
+
+        result = self.array.add_to_end(serializable, array_length=array_length)
+
+        # Determine how many links were added.
+        links = 1
+        while serializable.chain is not None:
+            serializable = serializable.chain
+            links += 1
+        self._links[name] = links
+
+        # Don't let subsequent fields be added to a serializable's own array.
+        if isinstance(serializable, PrimitiveArray):
+            serializable.assign(
+                PrimitiveArray(byte_order=self.array.byte_order)
+            )
+
+        return result
 
     def add_field(
         self,
-- 
2.43.0


From 70af156d8b7587a61c5200c7849a121944b239a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 019/117] fix: keep array lengths when importing a protocol

---
 runtimepy/codec/protocol/json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 8963f1e..28f3ce8 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -111,6 +111,9 @@ class JsonProtocol(ProtocolBase):
                         item["name"],  # type: ignore
                         item["kind"],  # type: ignore
                         enum=item.get("enum"),  # type: ignore
+                        array_length=item.get(  # type: ignore
+                            "array_length"
+                        ),
                     )
                 )
 
-- 
2.43.0


From 3cbc2180b88a3e2b1433d21dc43be9ea8d0ade8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 020/117] fix: don't modify the data a protocol is imported
 from

---
 runtimepy/codec/protocol/json.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index 28f3ce8..b92bdc2 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -93,10 +93,9 @@ class JsonProtocol(ProtocolBase):
     def import_json(cls: type[T], data: dict[str, _JsonObject]) -> T:
         """Create a bit-fields manager from JSON data."""
 
-        # Only set values once (at the end).
-        values = data.get(VALUES_KEY, {})
-        if VALUES_KEY in data:
-            del data[VALUES_KEY]
+        # Only set values once (at the end), don't modify the caller's data.
+        data = dict(data)
+        values = data.pop(VALUES_KEY, {})
 
         fields = BitFieldsManager.import_json(data)
 
-- 
2.43.0


From 7c3b12491c695a6045cf6c79c940fdc0b5fa665a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:31 +0000
Subject: [PATCH 021/117] fix: respect resolve_enum for all of a protocol's
 exported values

---
 runtimepy/codec/protocol/json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/codec/protocol/json.py b/runtimepy/codec/protocol/json.py
index b92bdc2..9051bb3 100644
--- a/runtimepy/codec/protocol/json.py
+++ b/runtimepy/codec/protocol/json.py
@@ -83,7 +83,7 @@ class JsonProtocol(ProtocolBase):
         # Export regular-field values.
         json_obj = data.get(VALUES_KEY, {})
         for name in self._regular_fields:
-            json_obj[name] = self.value(name)
+            json_obj[name] = self.value(name, resolve_enum=resolve_enum)
         if json_obj:
             data[VALUES_KEY] = json_obj
 
-- 
2.43.0


From f8370d386faba2c12343b4a2d56e74c4aaaac40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 022/117] fix: restore the namespace when a type name is
 refused

---
 runtimepy/codec/system/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index 5d78b9d..b153407 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -194,15 +194,15 @@ class TypeSystem(LoggerMixin):
         """Resolve a given name against the current namespace."""
 
         with self.root_namespace.pushed(*namespace):
-            if check_available:
-                resolved = self._find_name(name)
-                assert (
-                    resolved is None
-                    or self.root_namespace.namespace(name, track=False)
-                    != resolved
-                ), f"Name '{name}' not available! found '{resolved}'"
-
-            result = self.root_namespace.namespace(name)
+            resolved = self._find_name(name) if check_available else None
+            available = (
+                resolved is None
+                or self.root_namespace.namespace(name, track=False) != resolved
+            )
+            result = self.root_namespace.namespace(name, track=available)
+
+        # The namespace isn't restored if an exception is raised above.
+        assert available, f"Name '{name}' not available! found '{resolved}'"
 
         return result
 
-- 
2.43.0


From 42a1696c63d64e7867101db57d9e68b81186b9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:30 +0000
Subject: [PATCH 023/117] fix: find types in their own namespace before global
 ones

---
 runtimepy/codec/system/__init__.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtimepy/codec/system/__init__.py b/runtimepy/codec/system/__init__.py
index b153407..3402a14 100644
--- a/runtimepy/codec/system/__init__.py
+++ b/runtimepy/codec/system/__init__.py
@@ -165,14 +165,14 @@ class TypeSystem(LoggerMixin):
     ) -> Optional[str]:
         """Attempt to find a registered name."""
 
-        if name in self.primitives:
-            return name
-
         with self.root_namespace.pushed(*namespace):
             candidate = self.root_namespace.namespace(name, track=False)
-            if candidate in self.custom:
+            if candidate in self.custom or candidate in self.primitives:
                 return candidate
 
+            if name in self.primitives:
+                return name
+
             matches = list(
                 x
                 for x in self.root_namespace.search(pattern=name)
-- 
2.43.0


From 27fcad6ffbf493831c6845ac29cbb38ce171e00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:13 +0000
Subject: [PATCH 024/117] fix: refuse protocol fields with a name that is
 already used

---
 runtimepy/codec/protocol/base.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/runtimepy/codec/protocol/base.py b/runtimepy/codec/protocol/base.py
index abb36e9..6b27dd3 100644
--- a/runtimepy/codec/protocol/base.py
+++ b/runtimepy/codec/protocol/base.py
@@ -161,9 +161,23 @@ class ProtocolBase:
 
         return result
 
+    def _check_unused(self, name: str) -> None:
+        """
+        Check that a field doesn't already belong to this protocol (the name
+        registry can be shared with other protocols).
+        """
+
+        assert (
+            name not in self._regular_fields
+            and name not in self.serializables
+            and not self._fields.has_field(name)
+        ), f"Field '{name}' already exists!"
+
     def register_name(self, name: str) -> int:
         """Register the field name."""
 
+        self._check_unused(name)
+
         ident = self.names.register_name(name)
         assert ident is not None, f"Couldn't register field '{name}'!"
         return ident
@@ -239,6 +253,9 @@ class ProtocolBase:
     def _add_bit_fields(self, fields: _BitFields) -> None:
         """Add a bit-fields instance."""
 
+        for name in fields.fields:
+            self._check_unused(name)
+
         idx = self._fields.add(fields)
         self.array.add(fields.raw)
         self._build.append(idx)
-- 
2.43.0


From cfd858e79a3794a4c0175f2b6ea3140bfd0fd0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:33 +0000
Subject: [PATCH 025/117] fix: don't cancel a task that is handling a
 primitive's samples

---
 runtimepy/primitives/evaluation.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/runtimepy/primitives/evaluation.py b/runtimepy/primitives/evaluation.py
index a7780bd..6561cce 100644
--- a/runtimepy/primitives/evaluation.py
+++ b/runtimepy/primitives/evaluation.py
@@ -151,12 +151,26 @@ async def sample_for(
 
     # Service the callback until resolved or this evaluation times out.
     with primitive.callback(sample):
+        loop = asyncio.get_running_loop()
+        deadline = loop.time() + timeout
+
+        def expire() -> None:
+            """Stop sampling when the timeout is reached."""
+            nonlocal keep_sampling
+            keep_sampling = False
+
+        timer = loop.call_at(deadline, expire)
         try:
-            async with asyncio.timeout(timeout):
-                while keep_sampling:
-                    yield await sample_queue.get()
+            while keep_sampling:
+                # The timeout can't be active while a sample is yielded, it
+                # would cancel whatever is consuming samples.
+                async with asyncio.timeout_at(deadline):
+                    emit = await sample_queue.get()
+                yield emit
         except asyncio.TimeoutError:
             pass
+        finally:
+            timer.cancel()
 
     # Drain queue.
     while not sample_queue.empty():
-- 
2.43.0


From 1cc7339d15ff01143aa7989af4ba66577a1f34f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:28 +0000
Subject: [PATCH 026/117] fix: load channels with any name and enum that can be
 registered

---
 runtimepy/data/schemas/BitFields.yaml       | 4 ++--
 runtimepy/data/schemas/Channel.yaml         | 2 +-
 runtimepy/data/schemas/ChannelRegistry.yaml | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/runtimepy/data/schemas/BitFields.yaml b/runtimepy/data/schemas/BitFields.yaml
index d55ed62..01062ce 100644
--- a/runtimepy/data/schemas/BitFields.yaml
+++ b/runtimepy/data/schemas/BitFields.yaml
@@ -25,7 +25,7 @@ properties:
       properties:
         name:
           type: string
-          pattern: "^[a-z0-9-_.]+$"
+          pattern: "^[a-zA-Z0-9_.-]+$"
 
         commandable:
           type: boolean
@@ -54,4 +54,4 @@ properties:
             - type: integer
               minimum: 1
             - type: string
-              pattern: "^\\w+$"
+              pattern: "^[\\w\\:\\-_.\\/]+$"
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 2f264d1..615f6a2 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -33,4 +33,4 @@ properties:
       - type: integer
         minimum: 1
       - type: string
-        pattern: "^\\w+$"
+        pattern: "^[\\w\\:\\-_.\\/]+$"
diff --git a/runtimepy/data/schemas/ChannelRegistry.yaml b/runtimepy/data/schemas/ChannelRegistry.yaml
index da0c54c..cfdeee1 100644
--- a/runtimepy/data/schemas/ChannelRegistry.yaml
+++ b/runtimepy/data/schemas/ChannelRegistry.yaml
@@ -3,5 +3,5 @@ type: object
 additionalProperties: false
 
 patternProperties:
-  "^[a-z0-9-_.]+$":
+  "^[a-zA-Z0-9_.-]+$":
     $ref: package://runtimepy/schemas/Channel.yaml
-- 
2.43.0


From cd6edd21ace925d0f0412b316adcb7f20ee62e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 027/117] fix: find channels that are not created by a
 type-specific method by type

---
 runtimepy/channel/environment/create.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtimepy/channel/environment/create.py b/runtimepy/channel/environment/create.py
index ffa3681..951d0d0 100644
--- a/runtimepy/channel/environment/create.py
+++ b/runtimepy/channel/environment/create.py
@@ -11,7 +11,9 @@ from typing import cast as _cast
 from vcorelib.namespace import Namespace as _Namespace
 
 # internal
+from runtimepy.channel import BoolChannel as _BoolChannel
 from runtimepy.channel import FloatChannel as _FloatChannel
+from runtimepy.channel import IntChannel as _IntChannel
 from runtimepy.channel.environment.base import (
     BaseChannelEnvironment as _BaseChannelEnvironment,
 )
@@ -72,6 +74,14 @@ class CreateChannelEnvironment(_BaseChannelEnvironment):
         if min_period_s is not None:
             result.event.set_min_period(min_period_s)
 
+        # Organize channel by Python type.
+        if result.type.is_boolean:
+            self.bools.add(_cast(_BoolChannel, result))
+        elif result.type.is_integer:
+            self.ints.add(_cast(_IntChannel, result))
+        else:
+            self.floats.add(_cast(_FloatChannel, result))
+
         # Keep track of any new enum channels.
         if enum is not None:
             self.channel_enums[result] = self.enums[enum]
-- 
2.43.0


From 8600c9da98d0a61e517d211a78b40b83b06b87ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 028/117] fix: parse raw values for scaled integer channels as
 integers

---
 runtimepy/channel/environment/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 1366e64..2e40e4a 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -131,7 +131,8 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
                 is_int = chan.raw.kind.is_integer
 
                 if is_int or chan.raw.kind.is_float:
-                    kind = int if is_int and not chan.raw.scaling else float
+                    scaling = scaled and chan.raw.scaling
+                    kind = int if is_int and not scaling else float
                     try:
                         value = kind(value)
                         resolved = True
-- 
2.43.0


From 8815a1901ee5ad127f60748aa70bb3ff6b087520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 029/117] fix: don't add an environment's bit fields again each
 time it's exported

---
 runtimepy/channel/environment/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 2e40e4a..9da1f5e 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -439,7 +439,7 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
     def finalize(self, strict: bool = True) -> None:
         """Finalize this instance."""
 
-        for fields in self.to_add:
-            self.fields.add(fields)
+        while self.to_add:
+            self.fields.add(self.to_add.pop(0))
 
         super().finalize(strict=strict)
-- 
2.43.0


From 51663d3c59788237d03b40a4af6ccdd089d2460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 030/117] fix: keep a channel's scaling when it's exported and
 loaded

---
 runtimepy/channel/__init__.py       | 5 +++++
 runtimepy/data/schemas/Channel.yaml | 6 ++++++
 2 files changed, 11 insertions(+)

diff --git a/runtimepy/channel/__init__.py b/runtimepy/channel/__init__.py
index 9852536..537693c 100644
--- a/runtimepy/channel/__init__.py
+++ b/runtimepy/channel/__init__.py
@@ -89,6 +89,8 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
 
         # This is the underlying storage entity for this channel.
         self.raw: _T = _cast(_T, _normalize(_cast(str, data["type"]))())
+        if "scaling" in data:
+            self.raw.scaling = list(data["scaling"])  # type: ignore
 
         _ctl: _Optional[Controls] = data.get("controls")  # type: ignore
         self.controls: _Optional[Controls] = _ctl
@@ -123,6 +125,9 @@ class Channel(_RegistryItem, _EnumMixin, _Generic[_T]):
         if self._enum is not None:
             result["enum"] = self._enum
 
+        if self.raw.scaling:
+            result["scaling"] = list(self.raw.scaling)
+
         if self.controls:
             result["controls"] = self.controls
 
diff --git a/runtimepy/data/schemas/Channel.yaml b/runtimepy/data/schemas/Channel.yaml
index 615f6a2..2ee5af3 100644
--- a/runtimepy/data/schemas/Channel.yaml
+++ b/runtimepy/data/schemas/Channel.yaml
@@ -28,6 +28,12 @@ properties:
       - uint32
       - uint64
 
+  # Coefficients of a polynomial.
+  scaling:
+    type: array
+    items:
+      type: number
+
   enum:
     oneOf:
       - type: integer
-- 
2.43.0


From b26cce24e7a60377b506df1e54e6fd088a18bd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 031/117] fix: ingest the raw values of events without
 inverting scaling

---
 runtimepy/channel/environment/telemetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 1c040a1..877e09f 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -83,7 +83,7 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         if self.fields.has_field(point.name):
             self.fields[point.name].raw.value = point.value  # type: ignore
         else:
-            self.set(point.name, point.value)
+            self.set(point.name, point.value, scaled=False)
 
     def _parse_channel_event(self, name: str) -> Optional[ParsedEvent]:
         """Attempt to parse a channel event from the fifo."""
-- 
2.43.0


From 8564dd1bce79fefc91c03d79a474ac01de06cb07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 032/117] fix: parse events whose value arrives after its
 header

---
 runtimepy/channel/environment/telemetry.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 877e09f..449971c 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -134,9 +134,6 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         # Ingest stream.
         channels.event_fifo.ingest(stream.read())
 
-        ident = -1
-        name = ""
-
         keep_going = True
         while keep_going:
             keep_going = False
@@ -148,17 +145,17 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                 if data is not None:
                     channels.event_header.array.update(data)
 
-                    # Update local variables.
-                    ident = cast(int, channels.event_header["identifier"])
-                    name = channels.names.name(ident)  # type: ignore
-                    assert name is not None, ident
-
                     # Update state.
                     channels.header_ready = True
                     keep_going = True
             else:
                 event = None
 
+                # The header may have arrived before this stream was read.
+                ident = cast(int, channels.event_header["identifier"])
+                name = channels.names.name(ident)
+                assert name is not None, ident
+
                 # Handle bit-field.
                 if self.fields.has_field(name):
                     event = self._parse_field_event(name)
-- 
2.43.0


From 3a734cf6b4d24c867b108b900d20236d21e8727a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 033/117] fix: stop streaming events when an exception ends the
 context

---
 runtimepy/channel/event/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index ec9a3b0..6a70a5d 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -63,9 +63,11 @@ class PrimitiveEvent:
         ident = raw.register_callback(callback)
 
         self.streaming = True
-        yield
-        assert raw.remove_callback(ident)
-        self.streaming = False
+        try:
+            yield
+        finally:
+            assert raw.remove_callback(ident)
+            self.streaming = False
 
     def _poll(
         self,
-- 
2.43.0


From 9de2fb6b480d6b1511e51f6f331874fa566d7d12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:52 +0000
Subject: [PATCH 034/117] fix: only count events that are written in metrics

---
 runtimepy/channel/event/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/event/__init__.py b/runtimepy/channel/event/__init__.py
index 6a70a5d..5508bac 100644
--- a/runtimepy/channel/event/__init__.py
+++ b/runtimepy/channel/event/__init__.py
@@ -98,7 +98,7 @@ class PrimitiveEvent:
             if flush:
                 stream.flush()
 
-        if channel is not None:
+        if channel is not None and written:
             channel.increment(written)
 
         return written
-- 
2.43.0


From 29bf19ef0a39b33e9fe766427493ebecb0e99834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:37 +0000
Subject: [PATCH 035/117] fix: keep parsing events correctly when only some are
 consumed

---
 runtimepy/channel/environment/telemetry.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/runtimepy/channel/environment/telemetry.py b/runtimepy/channel/environment/telemetry.py
index 449971c..54751ff 100644
--- a/runtimepy/channel/environment/telemetry.py
+++ b/runtimepy/channel/environment/telemetry.py
@@ -134,6 +134,14 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
         # Ingest stream.
         channels.event_fifo.ingest(stream.read())
 
+        def event_name() -> str:
+            """Get the name of the channel or field in the current header."""
+
+            ident = cast(int, channels.event_header["identifier"])
+            name = channels.names.name(ident)
+            assert name is not None, ident
+            return name
+
         keep_going = True
         while keep_going:
             keep_going = False
@@ -145,6 +153,9 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                 if data is not None:
                     channels.event_header.array.update(data)
 
+                    # Ensure this event belongs to this environment.
+                    event_name()
+
                     # Update state.
                     channels.header_ready = True
                     keep_going = True
@@ -152,9 +163,7 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                 event = None
 
                 # The header may have arrived before this stream was read.
-                ident = cast(int, channels.event_header["identifier"])
-                name = channels.names.name(ident)
-                assert name is not None, ident
+                name = event_name()
 
                 # Handle bit-field.
                 if self.fields.has_field(name):
@@ -165,8 +174,8 @@ class TelemetryChannelEnvironment(_BaseChannelEnvironment):
                     event = self._parse_channel_event(name)
 
                 if event is not None:
-                    yield event
-
                     # Update state.
                     channels.header_ready = False
                     keep_going = True
+
+                    yield event
-- 
2.43.0


From dff9ebc64dc3d072411cb18d770536708e4dc023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:29 +0000
Subject: [PATCH 036/117] fix: only add the primitive of consecutive bit fields
 to an array once

---
 runtimepy/channel/environment/array.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/channel/environment/array.py b/runtimepy/channel/environment/array.py
index 4a8e1bc..a63c733 100644
--- a/runtimepy/channel/environment/array.py
+++ b/runtimepy/channel/environment/array.py
@@ -99,6 +99,7 @@ class ArrayChannelEnvironment(_BaseChannelEnvironment):
                 assert fields is not None, f"Unknown bit-field '{name}'!"
                 result.array.add(fields.raw)
                 available_field_names = set(fields.names)
+                curr_fields = fields
 
             # Keep track of field names processed in the current bit-fields
             # primitive.
-- 
2.43.0


From 9f29b396af674778eada04d11064df027ba17f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 037/117] fix: handle values that are too big for a channel
 when processing commands

---
 runtimepy/channel/environment/command/processor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/processor.py b/runtimepy/channel/environment/command/processor.py
index 52a5a6b..6c97682 100644
--- a/runtimepy/channel/environment/command/processor.py
+++ b/runtimepy/channel/environment/command/processor.py
@@ -96,7 +96,7 @@ class ChannelCommandProcessor(ChannelEnvironmentMixin):
 
         try:
             self.env.set(args.channel, args.extra[0])
-        except (ValueError, KeyError) as exc:
+        except (ValueError, KeyError, OverflowError) as exc:
             self.logger.exception(
                 "Exception setting '%s':", args.channel, exc_info=exc
             )
-- 
2.43.0


From 78311490539f78e939a5af4bbee8a134dde2dd7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:44 +0000
Subject: [PATCH 038/117] fix: read (and export) values that aren't items of an
 enumeration

---
 runtimepy/channel/environment/base.py      | 5 ++++-
 runtimepy/primitives/field/manager/base.py | 6 +++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 9da1f5e..9bf3df5 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -204,7 +204,10 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
 
         # Resolve enumeration values to strings.
         if enum is not None and resolve_enum:
-            value = enum.get_str(_cast(int, value))
+            # Not every value needs to be an item of the enumeration.
+            item = enum.as_str(_cast(int, value))
+            if item is not None:
+                value = item
 
         return value
 
diff --git a/runtimepy/primitives/field/manager/base.py b/runtimepy/primitives/field/manager/base.py
index a75e52e..d7a0a93 100644
--- a/runtimepy/primitives/field/manager/base.py
+++ b/runtimepy/primitives/field/manager/base.py
@@ -146,7 +146,11 @@ class BitFieldsManagerBase:
         if field.is_enum and resolve_enum:
             name = self.registry.name(key)
             assert name is not None, key
-            value = self.enum_lookup[name].get_str(value)
+
+            # Not every value needs to be an item of the enumeration.
+            item = self.enum_lookup[name].as_str(value)
+            if item is not None:
+                value = item
 
         elif field.width == 1:
             value = bool(value)
-- 
2.43.0


From 724a38fc10f6b5e9fb67dae34a3e1b378b0760fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:34 +0000
Subject: [PATCH 039/117] fix: keep message framing when processing a message
 fails

---
 runtimepy/message/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/message/__init__.py b/runtimepy/message/__init__.py
index 1047a00..fd8a8da 100644
--- a/runtimepy/message/__init__.py
+++ b/runtimepy/message/__init__.py
@@ -79,7 +79,7 @@ class MessageProcessor:
             else:
                 message = self.buffer.pop(self.message_length_in.value)
                 if message is not None:
-                    yield message
                     self.reading_header = True
+                    yield message
                 else:
                     can_continue = False
-- 
2.43.0


From f854ed6bbfff192421484664ba9054b483e8fbba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 040/117] fix: accept HTTP headers with characters that aren't
 ASCII

---
 runtimepy/net/http/state.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/runtimepy/net/http/state.py b/runtimepy/net/http/state.py
index 0811587..81f7885 100644
--- a/runtimepy/net/http/state.py
+++ b/runtimepy/net/http/state.py
@@ -21,12 +21,12 @@ class HeaderProcessingState:
     """A container for header-related processing state."""
 
     lines: list[str]
-    line: str
+    line: bytearray
 
     @staticmethod
     def create() -> "HeaderProcessingState":
         """Create a default instance."""
-        return HeaderProcessingState([], "")
+        return HeaderProcessingState([], bytearray())
 
     def service(self, buffer: ByteFifo, kind: type[T]) -> Optional[T]:
         """
@@ -37,24 +37,25 @@ class HeaderProcessingState:
         result = None
 
         while result is None and buffer.size:
-            curr_raw = buffer.pop(1)
-            if curr_raw is not None:
-                curr = curr_raw.decode(encoding=DEFAULT_ENCODING)
-
+            curr = buffer.pop(1)
+            if curr is not None:
                 # Any '\r\n' sequence signifies the end of a header line.
-                if curr == "\n":
+                if curr == b"\n":
                     if self.line:
-                        self.lines.append(self.line)
-                        self.line = ""
+                        # Characters can be encoded as multiple bytes.
+                        line = self.line.decode(encoding=DEFAULT_ENCODING)
+                        self.line = bytearray()
+                        self.lines.append(line)
 
                     # Two sequences in a row signifies the end of the header
                     # section.
                     else:
-                        result = kind()
-                        result.from_lines(self.lines)
+                        lines = self.lines
                         self.lines = []
+                        result = kind()
+                        result.from_lines(lines)
 
-                elif curr != "\r":
+                elif curr != b"\r":
                     self.line += curr
 
         return result
-- 
2.43.0


From ffc3eab6899646c2486c093c1cc8c84ac227a8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 041/117] fix: keep all of a request target's query

---
 runtimepy/net/http/request_target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/request_target.py b/runtimepy/net/http/request_target.py
index 1153535..0a25575 100644
--- a/runtimepy/net/http/request_target.py
+++ b/runtimepy/net/http/request_target.py
@@ -41,7 +41,7 @@ class RequestTarget:
 
         # 3.2.1 origin-form
         elif request_target_raw.startswith("/"):
-            parts = request_target_raw.split("?")
+            parts = request_target_raw.split("?", maxsplit=1)
             path = parts[0]
             if len(parts) > 1:
                 query = parts[1]
-- 
2.43.0


From fb6d336b289e60282d09e97670cde48d7af1ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 042/117] fix: accept IPv6 addresses in authority-form request
 targets

---
 runtimepy/net/http/request_target.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/request_target.py b/runtimepy/net/http/request_target.py
index 0a25575..9f91bad 100644
--- a/runtimepy/net/http/request_target.py
+++ b/runtimepy/net/http/request_target.py
@@ -36,7 +36,7 @@ class RequestTarget:
 
         # 3.2.3 authority-form
         elif method == http.HTTPMethod.CONNECT:
-            host, port = request_target_raw.split(":")
+            host, port = request_target_raw.rsplit(":", maxsplit=1)
             self.authority_form = (host, int(port))
 
         # 3.2.1 origin-form
-- 
2.43.0


From f94718aa48c65d4a4600400d008522804716f5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:37 +0000
Subject: [PATCH 043/117] fix: log HTTP responses at the level determined for
 them

---
 runtimepy/net/http/response.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/http/response.py b/runtimepy/net/http/response.py
index 77fda5b..d2c69be 100644
--- a/runtimepy/net/http/response.py
+++ b/runtimepy/net/http/response.py
@@ -76,7 +76,7 @@ class ResponseHeader(HeadersMixin):
         """Log information about this response header."""
 
         level = logging.INFO if (200 <= self.status <= 299) else logging.ERROR
-        logger.debug(
+        logger.log(
             level,
             "(%s response) %s - %s",
             "outgoing" if out else "incoming",
-- 
2.43.0


From e31e5e649fdfcec6e361bd2d02e710a58cdb251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:57 +0000
Subject: [PATCH 044/117] fix: don't return the response to a cancelled HTTP
 request to the next one

---
 runtimepy/net/tcp/http/__init__.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 5351c07..05bce5d 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -56,6 +56,7 @@ class HttpConnection(_TcpConnection):
     identity = f"{PKG_NAME}/{VERSION}"
 
     expecting_response: bool
+    responses_abandoned: int
 
     log_alias = "HTTP"
 
@@ -72,6 +73,7 @@ class HttpConnection(_TcpConnection):
         # Outgoing request handling.
         self.request_ready = asyncio.BoundedSemaphore()
         self.expecting_response = False
+        self.responses_abandoned = 0
         self.responses: asyncio.Queue[HttpResponse] = asyncio.Queue(maxsize=1)
 
         self.handlers = copy(self.handlers)
@@ -139,8 +141,17 @@ class HttpConnection(_TcpConnection):
 
             self._send(request, data)
             self.expecting_response = True
-            result = await self.responses.get()
-            self.expecting_response = False
+            try:
+                result = await self.responses.get()
+            except asyncio.CancelledError:
+                # The next request can't get the response to this one.
+                if self.responses.empty():
+                    self.responses_abandoned += 1
+                else:
+                    self.responses.get_nowait()
+                raise
+            finally:
+                self.expecting_response = self.responses_abandoned > 0
 
         return result
 
@@ -190,6 +201,13 @@ class HttpConnection(_TcpConnection):
                     ),
                 )
 
+            # Ignore the response to a request that was cancelled.
+            elif self.responses_abandoned:
+                self.responses_abandoned -= 1
+                self.expecting_response = (
+                    self.responses_abandoned > 0 or self.request_ready.locked()
+                )
+
             # Process the response to a pending request.
             else:
                 await self.responses.put(
-- 
2.43.0


From f2b8ee15ba1cf266454d1682d98f9f7d99df6f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:25 +0000
Subject: [PATCH 045/117] fix: don't serve files outside of an HTTP server's
 search paths

---
 runtimepy/net/server/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index 9142443..ef5ba06 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -7,6 +7,7 @@ import http
 from io import StringIO
 import logging
 import mimetypes
+from os.path import normpath
 from pathlib import Path
 from typing import Any, Optional, TextIO, Union
 
@@ -170,10 +171,13 @@ class RuntimepyServerConnection(HttpConnection):
 
         # Try serving the path as a file.
         for search in self.paths:
-            candidate = search.joinpath(path[0][1:])
+            # Only serve files that belong to a search path.
+            candidate = Path(normpath(search.joinpath(path[0].lstrip("/"))))
+            if not candidate.is_relative_to(search):
+                continue
 
             # Handle markdown sources.
-            if candidate.name:
+            if candidate != search:
                 md_candidate = candidate.with_suffix(".md")
                 if md_candidate.is_file():
                     return await self.render_markdown_file(
-- 
2.43.0


From cb52f1edac150f86a95f23432844d9f65a06ec87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:25 +0000
Subject: [PATCH 046/117] fix: serve compressed files over HTTP

---
 runtimepy/net/server/__init__.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/server/__init__.py b/runtimepy/net/server/__init__.py
index ef5ba06..b547afe 100644
--- a/runtimepy/net/server/__init__.py
+++ b/runtimepy/net/server/__init__.py
@@ -187,13 +187,11 @@ class RuntimepyServerConnection(HttpConnection):
             if candidate.is_file():
                 mime, encoding = mimetypes.guess_type(candidate, strict=False)
 
-                # Set MIME type if it can be determined.
-                if mime:
+                # Set MIME type if it can be determined (content encodings
+                # aren't handled, compressed files are served as-is).
+                if mime and not encoding:
                     response["Content-Type"] = mime
 
-                # We don't handle this yet.
-                assert not encoding, (candidate, mime, encoding)
-
                 self.logger.info("Serving '%s' (MIME: %s)", candidate, mime)
 
                 # Return the file data.
-- 
2.43.0


From acbc5ef769dd3ac7141f88a16d6cde1b692e923a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 047/117] fix: don't include the terminator in a received TFTP
 error message

---
 runtimepy/net/udp/tftp/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 386f73a..b8a2507 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -344,7 +344,7 @@ class BaseTftpConnection(UdpConnection):
 
         # Update underlying primitive.
         error_code = TftpErrorCode(self.error_code.from_stream(stream))
-        message = stream.read().decode()
+        message = stream.read().split(bytes(1), maxsplit=1)[0].decode()
 
         # Call extra error handlers.
         for handler in self.error_handlers:
-- 
2.43.0


From 4c57651ef40f53278d5f27576706e8aea6ec4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 048/117] fix: keep processing after malformed TFTP messages,
 answer the sender of unknown ones

---
 runtimepy/net/udp/tftp/base.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index b8a2507..5425c9d 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -8,6 +8,7 @@ from contextlib import AsyncExitStack
 from io import BytesIO
 import logging
 from pathlib import Path
+from struct import error as StructError
 from typing import BinaryIO, Callable
 
 # third-party
@@ -358,13 +359,22 @@ class BaseTftpConnection(UdpConnection):
         """Process a datagram."""
 
         with BytesIO(data) as stream:
-            self.opcode.from_stream(stream)
-            code: int = self.opcode.value
-            if code in self.handlers:
-                await self.handlers[code](stream, addr)
-            else:
-                msg = f"Unknown opcode {code}"
-                self.send_error(TftpErrorCode.ILLEGAL_OPERATION, msg)
-                self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
+            try:
+                self.opcode.from_stream(stream)
+                code: int = self.opcode.value
+                if code in self.handlers:
+                    await self.handlers[code](stream, addr)
+                else:
+                    msg = f"Unknown opcode {code}"
+                    self.send_error(
+                        TftpErrorCode.ILLEGAL_OPERATION, msg, addr=addr
+                    )
+                    self.logger.error("%s from %s:%d.", msg, addr[0], addr[1])
+
+            # A malformed message shouldn't stop others from being processed.
+            except (IndexError, ValueError, StructError) as exc:
+                self.logger.error(
+                    "Malformed message from %s:%d (%s).", addr[0], addr[1], exc
+                )
 
         return True
-- 
2.43.0


From ed861e3357581e2dfaf6be4657e7fafac405a028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 049/117] fix: answer TFTP requests for files that can't be
 opened with an error

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index ef7c936..afc30b9 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -337,7 +337,7 @@ class TftpEndpoint(LoggerMixin):
             with path.open(mode):
                 pass
             result = True
-        except PermissionError:
+        except OSError:
             self.error_sender(
                 TftpErrorCode.ACCESS_VIOLATION,
                 f"Can't open={mode} '{path}'",
@@ -349,7 +349,9 @@ class TftpEndpoint(LoggerMixin):
     def _check_exists(self, path: Path) -> bool:
         """Check if a file exists, send an error if not."""
 
-        result = path.is_file()
+        result = False
+        with suppress(OSError):
+            result = path.is_file()
 
         if not result:
             self.error_sender(
-- 
2.43.0


From 464ea900bbb842feff21f6ba53460de78edd389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 050/117] fix: process a re-transmitted TFTP request once

---
 runtimepy/net/udp/tftp/endpoint.py | 37 ++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index afc30b9..38abe32 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -7,7 +7,7 @@ import asyncio
 from contextlib import AsyncExitStack, suppress
 import logging
 from pathlib import Path
-from typing import BinaryIO, Callable, Optional, Union
+from typing import BinaryIO, Callable, Coroutine, Optional, Union
 
 # third-party
 from vcorelib.asyncio.poll import repeat_until
@@ -62,6 +62,9 @@ class TftpEndpoint(LoggerMixin):
         # Avoid concurrency bugs when actively writing or reading.
         self.lock = asyncio.Lock()
 
+        # Requests being processed.
+        self.active: set[tuple[str, Path]] = set()
+
         # Message receiving.
         self.awaiting_acks: dict[int, asyncio.Event] = {}
         self.awaiting_blocks: dict[int, asyncio.Event] = {}
@@ -239,6 +242,26 @@ class TftpEndpoint(LoggerMixin):
                 self.addr[1],
             )
 
+    def _start(
+        self,
+        key: tuple[str, Path],
+        process: Callable[[Path, str], Coroutine[None, None, None]],
+        path: Path,
+        mode: str,
+    ) -> Optional[asyncio.Task[None]]:
+        """
+        Start processing a request, unless the same one is being processed
+        already (requests get re-transmitted until they're responded to).
+        """
+
+        if key in self.active:
+            return None
+
+        task = asyncio.create_task(process(path, mode))
+        self.active.add(key)
+        task.add_done_callback(lambda _: self.active.discard(key))
+        return task
+
     def handle_write_request(
         self, filename: str, mode: str
     ) -> Optional[asyncio.Task[None]]:
@@ -246,11 +269,13 @@ class TftpEndpoint(LoggerMixin):
 
         path = self.get_path(filename)
 
-        # Ensure we can service this request.
-        if not self._check_permission(path, "wb"):
+        # Ensure we can service this request (without truncating the file).
+        if not self._check_permission(path, "ab"):
             return None
 
-        return asyncio.create_task(self._process_write_request(path, mode))
+        return self._start(
+            ("write", path), self._process_write_request, path, mode
+        )
 
     async def serve_file(self, path: Path) -> bool:
         """Serve file chunks via this endpoint."""
@@ -323,7 +348,9 @@ class TftpEndpoint(LoggerMixin):
         ):
             return None
 
-        return asyncio.create_task(self._process_read_request(path, mode))
+        return self._start(
+            ("read", path), self._process_read_request, path, mode
+        )
 
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
-- 
2.43.0


From 4d6d344402804f942f5714c45b9cfbe941e6f5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 051/117] fix: accept writes of empty files over TFTP

---
 runtimepy/net/udp/tftp/endpoint.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index 38abe32..c483113 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -164,8 +164,7 @@ class TftpEndpoint(LoggerMixin):
 
         keep_going = True
         idx = 1
-        curr_size = 0
-        written = 0
+        curr_size = self.max_block_size
         while keep_going:
             # Set up event trigger for expected data payload.
             event = asyncio.Event()
@@ -193,7 +192,6 @@ class TftpEndpoint(LoggerMixin):
                 assert curr_size <= self.max_block_size, curr_size
 
                 stream.write(data)
-                written += curr_size
 
                 # We only expect future iterations if data payloads are
                 # saturated.
@@ -207,7 +205,7 @@ class TftpEndpoint(LoggerMixin):
                 idx += 1
 
         # Send the final acknowledgement for a bit ("dally" per rfc).
-        success = written > 0 and curr_size < self.max_block_size
+        success = curr_size < self.max_block_size
         if success:
             await repeat_until(
                 self._ack_sender(idx),
-- 
2.43.0


From 9cd037134262d5156f709efd15a92dab74a202d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:43 +0000
Subject: [PATCH 052/117] fix: acknowledge the last block of a TFTP read

---
 runtimepy/net/udp/tftp/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index dbf4cba..054d487 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -86,12 +86,14 @@ class TftpConnection(BaseTftpConnection):
                 path_fd.write(data)
                 del endpoint.blocks[idx]
 
+                # The next acknowledgement is for this block.
+                idx += 1
+
                 # Compute if this is the end of the stream.
                 nonlocal end_of_data
                 end_of_data = len(data) < endpoint.max_block_size
-                if not end_of_data:
-                    idx += 1
-                else:
+                if end_of_data:
+                    path_fd.flush()
                     fsync(path_fd.fileno())
 
             write_block()
-- 
2.43.0


From 737d114549179ef49981d4da7b6f422dd7d4710d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:09 +0000
Subject: [PATCH 053/117] fix: stop expecting blocks and acknowledgements of
 TFTP transactions that ended

---
 runtimepy/net/udp/tftp/base.py     | 14 ++++++++++----
 runtimepy/net/udp/tftp/endpoint.py | 14 ++++++++++++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/udp/tftp/base.py b/runtimepy/net/udp/tftp/base.py
index 5425c9d..368bdfe 100644
--- a/runtimepy/net/udp/tftp/base.py
+++ b/runtimepy/net/udp/tftp/base.py
@@ -142,10 +142,13 @@ class BaseTftpConnection(UdpConnection):
         """Set up an endpoint to wait for an initial ack from a server."""
 
         endpoint = self.endpoint(addr)
-        await stack.enter_async_context(endpoint.lock)
+        await endpoint.claim(stack)
         event = asyncio.Event()
         endpoint.awaiting_acks[0] = event
-        self._awaiting_first_ack[endpoint.addr.hostname] = endpoint
+
+        hostname = endpoint.addr.hostname
+        self._awaiting_first_ack[hostname] = endpoint
+        stack.callback(self._awaiting_first_ack.pop, hostname, None)
         return endpoint, event
 
     async def _await_first_block(
@@ -156,10 +159,13 @@ class BaseTftpConnection(UdpConnection):
         """Set up an endpoint to wait for an initial block from a server."""
 
         endpoint = self.endpoint(addr)
-        await stack.enter_async_context(endpoint.lock)
+        await endpoint.claim(stack)
         event = asyncio.Event()
         endpoint.awaiting_blocks[1] = event
-        self._awaiting_first_block[endpoint.addr.hostname] = endpoint
+
+        hostname = endpoint.addr.hostname
+        self._awaiting_first_block[hostname] = endpoint
+        stack.callback(self._awaiting_first_block.pop, hostname, None)
         return endpoint, event
 
     def endpoint(self, addr: IpHostTuplelike = None) -> TftpEndpoint:
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index c483113..a50b08f 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -85,6 +85,16 @@ class TftpEndpoint(LoggerMixin):
         self.addr = other.addr
         return self
 
+    async def claim(self, stack: AsyncExitStack) -> None:
+        """
+        Claim this endpoint for a transaction, nothing is expected anymore when
+        it ends (no matter how it does).
+        """
+
+        await stack.enter_async_context(self.lock)
+        for pending in (self.awaiting_acks, self.awaiting_blocks, self.blocks):
+            stack.callback(pending.clear)
+
     def chunk_sender(self, block: int, data: bytes) -> Callable[[], None]:
         """Create a method that sends a specific block of data."""
 
@@ -222,7 +232,7 @@ class TftpEndpoint(LoggerMixin):
         async with AsyncExitStack() as stack:
             # Claim write lock and ignore cancellation.
             stack.enter_context(suppress(asyncio.CancelledError))
-            await stack.enter_async_context(self.lock)
+            await self.claim(stack)
 
             path_fd = stack.enter_context(path.open("wb"))
 
@@ -316,7 +326,7 @@ class TftpEndpoint(LoggerMixin):
         async with AsyncExitStack() as stack:
             # Claim read lock and ignore cancellation.
             stack.enter_context(suppress(asyncio.CancelledError))
-            await stack.enter_async_context(self.lock)
+            await self.claim(stack)
 
             success = await self.serve_file(path)
 
-- 
2.43.0


From 0a8bb4a1456d16d7f6d0823616688f04c3637863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:26 +0000
Subject: [PATCH 054/117] fix: don't read or write files outside of a TFTP
 server's root directory

---
 runtimepy/net/udp/tftp/endpoint.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index a50b08f..e8b594f 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -6,6 +6,7 @@ A module implementing an interface for individual tftp endpoints.
 import asyncio
 from contextlib import AsyncExitStack, suppress
 import logging
+from os.path import abspath
 from pathlib import Path
 from typing import BinaryIO, Callable, Coroutine, Optional, Union
 
@@ -278,7 +279,9 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request (without truncating the file).
-        if not self._check_permission(path, "ab"):
+        if not self._check_contained(path) or not self._check_permission(
+            path, "ab"
+        ):
             return None
 
         return self._start(
@@ -341,7 +344,7 @@ class TftpEndpoint(LoggerMixin):
 
     def get_path(self, filename: str) -> Path:
         """Get a path from a filename."""
-        return self._path.joinpath(filename)
+        return Path(abspath(self._path.joinpath(filename)))
 
     def handle_read_request(
         self, filename: str, mode: str
@@ -351,8 +354,10 @@ class TftpEndpoint(LoggerMixin):
         path = self.get_path(filename)
 
         # Ensure we can service this request.
-        if not self._check_exists(path) or not self._check_permission(
-            path, "rb"
+        if (
+            not self._check_contained(path)
+            or not self._check_exists(path)
+            or not self._check_permission(path, "rb")
         ):
             return None
 
@@ -360,6 +365,22 @@ class TftpEndpoint(LoggerMixin):
             ("read", path), self._process_read_request, path, mode
         )
 
+    def _check_contained(self, path: Path) -> bool:
+        """
+        Check if a path belongs to the root directory, send an error if not.
+        """
+
+        result = path.is_relative_to(abspath(self._path))
+
+        if not result:
+            self.error_sender(
+                TftpErrorCode.ACCESS_VIOLATION,
+                f"'{path}' is not in '{self._path}'",
+                self.addr,
+            )
+
+        return result
+
     def _check_permission(self, path: Path, mode: str) -> bool:
         """
         Check if a path can be opened in the provided mode, send an error if
-- 
2.43.0


From fd3ecef1d026bdb04686a47dcfb45e8bb827e384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:14 +0000
Subject: [PATCH 055/117] fix: write a file received over TFTP before
 acknowledging its last block

---
 runtimepy/net/udp/tftp/endpoint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index e8b594f..cbabec8 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -218,6 +218,7 @@ class TftpEndpoint(LoggerMixin):
         # Send the final acknowledgement for a bit ("dally" per rfc).
         success = curr_size < self.max_block_size
         if success:
+            stream.flush()
             await repeat_until(
                 self._ack_sender(idx),
                 asyncio.Event(),
-- 
2.43.0


From 7faf1b73f58349a0920e10f919ed23f7a20bdcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 056/117] fix: handle telnet sequences and characters that are
 split between frames

---
 runtimepy/net/tcp/telnet/__init__.py | 42 +++++++++++++++-------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 4284538..47fc15d 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -4,9 +4,12 @@ A module implementing a basic telnet (RFC 854) connection interface.
 
 # built-in
 from abc import abstractmethod as _abstractmethod
+from codecs import IncrementalDecoder as _IncrementalDecoder
+from codecs import getincrementaldecoder as _getincrementaldecoder
 from contextlib import ExitStack as _ExitStack
 from io import BytesIO as _BytesIO
 from typing import BinaryIO as _BinaryIO
+from typing import Optional as _Optional
 
 # third-party
 from vcorelib import DEFAULT_ENCODING
@@ -35,9 +38,19 @@ class Telnet(_TcpConnection):
 
     log_alias = "TELNET"
 
+    # Sequences and characters can be split between frames.
+    _command_pending = False
+    _option_pending: _Optional[TelnetCode] = None
+    _decoder: _Optional[_IncrementalDecoder] = None
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
-        return await self.process_text(data.decode(encoding=DEFAULT_ENCODING))
+
+        if self._decoder is None:
+            self._decoder = _getincrementaldecoder(DEFAULT_ENCODING)("replace")
+
+        text = self._decoder.decode(data)
+        return not text or await self.process_text(text)
 
     @_abstractmethod
     async def process_command(self, code: TelnetCode) -> None:
@@ -70,13 +83,6 @@ class Telnet(_TcpConnection):
 
         result = True
 
-        last_val = 0
-        val = 0
-
-        # These two conditions are used to form a simple state machine.
-        processing_option = False
-        processing_command = False
-
         with _ExitStack() as stack:
             text = stack.enter_context(_BytesIO())
             stream = stack.enter_context(_BytesIO(data))
@@ -86,18 +92,18 @@ class Telnet(_TcpConnection):
                 if len(data) == 0:
                     break
 
-                last_val = val
                 val = data[0]
 
-                if processing_option:
-                    await self.process_option(
-                        TelnetCode(last_val), val, stream
-                    )
-                    processing_option = False
+                # A pending command and option form a simple state machine.
+                option = self._option_pending
+                if option is not None:
+                    self._option_pending = None
+                    await self.process_option(option, val, stream)
 
-                elif processing_command:
+                elif self._command_pending:
+                    self._command_pending = False
                     if TelnetCode.is_option_code(val):
-                        processing_option = True
+                        self._option_pending = TelnetCode(val)
                     else:
                         # If 'IAC' appears twice in a row, it's being
                         # escaped.
@@ -106,10 +112,8 @@ class Telnet(_TcpConnection):
                         else:
                             await self.process_command(TelnetCode(val))
 
-                    processing_command = False
-
                 elif val == TelnetCode.IAC:
-                    processing_command = True
+                    self._command_pending = True
 
                 elif TelnetNvt.is_nvt(val):
                     nvt = TelnetNvt(val)
-- 
2.43.0


From 6230c950d1e1a5c92ac7a729120ed6d6620dbecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:12 +0000
Subject: [PATCH 057/117] fix: ignore unknown telnet commands

---
 runtimepy/net/tcp/telnet/__init__.py | 4 +++-
 runtimepy/net/tcp/telnet/codes.py    | 5 +++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 47fc15d..512bd03 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -109,8 +109,10 @@ class Telnet(_TcpConnection):
                         # escaped.
                         if val == TelnetCode.IAC:
                             text.write(data)
-                        else:
+                        elif TelnetCode.is_command(val):
                             await self.process_command(TelnetCode(val))
+                        else:
+                            self.logger.warning("Unknown command: %d.", val)
 
                 elif val == TelnetCode.IAC:
                     self._command_pending = True
diff --git a/runtimepy/net/tcp/telnet/codes.py b/runtimepy/net/tcp/telnet/codes.py
index 82c6812..7b90f4e 100644
--- a/runtimepy/net/tcp/telnet/codes.py
+++ b/runtimepy/net/tcp/telnet/codes.py
@@ -66,6 +66,11 @@ class TelnetCode(_IntEnum):
     # Data Byte 255.
     IAC = 255
 
+    @staticmethod
+    def is_command(val: int) -> bool:
+        """Determine if the integer value is a command code."""
+        return TelnetCode.SE <= val <= TelnetCode.IAC
+
     @staticmethod
     def is_option_code(val: int) -> bool:
         """Determine if the integer value is an option code."""
-- 
2.43.0


From ea4b30241bd64fab749750dc83644ae5abf50165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 058/117] fix: publish the number of connection restart
 attempts

---
 runtimepy/net/connection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c62c69e..587e139 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -104,7 +104,7 @@ class Connection(
         )
         self.env.channel(
             "restart_attempts",
-            self._restarts,
+            self._restart_attempts,
             description="Number of connection restart attempts.",
         )
 
-- 
2.43.0


From ad672b92f44dced46f1873bcfafa3d11db997300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 059/117] fix: disable a connection when one of its tasks fails

---
 runtimepy/net/connection.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 587e139..002b0d5 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -203,6 +203,14 @@ class Connection(
             # Signal that this connection has been disabled.
             self._set_enabled(False)
 
+    def _task_done(self, task: _asyncio.Task[None]) -> None:
+        """Disable this connection if one of its tasks failed."""
+
+        if not task.cancelled():
+            exc = task.exception()
+            if exc is not None:
+                self.disable(f"task failed: {exc!r}")
+
     async def _wait_sig(self, stop_sig: _asyncio.Event) -> None:
         """Disable the connection if a stop signal gets set."""
 
@@ -304,6 +312,10 @@ class Connection(
         if stop_sig is not None:
             self._tasks.append(_asyncio.create_task(self._wait_sig(stop_sig)))
 
+        # A connection that can't be processed shouldn't stay enabled.
+        for task in self._tasks:
+            task.add_done_callback(self._task_done)
+
         self.exited.clear()
 
         # Run tasks in parallel.
-- 
2.43.0


From 21bf1cfac58bcb30eabbd30da42dd5b951ff0836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 060/117] fix: forget partially received data when a connection
 restarts

---
 runtimepy/net/connection.py          |  4 ++++
 runtimepy/net/stream/base.py         |  6 ++++++
 runtimepy/net/tcp/http/__init__.py   | 20 ++++++++++++++++----
 runtimepy/net/tcp/telnet/__init__.py |  8 ++++++++
 runtimepy/net/tcp/telnet/np_05b.py   |  6 ++++++
 5 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 002b0d5..1ca84be 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -235,6 +235,9 @@ class Connection(
         """
         raise NotImplementedError
 
+    def restart_extra(self) -> None:
+        """Additional tasks to perform when restarting."""
+
     async def disable_in(self, time: float) -> None:
         """A method for disabling a connection after some delay."""
 
@@ -258,6 +261,7 @@ class Connection(
         ):
             await backoff.sleep()
             if await self.restart():
+                self.restart_extra()
                 self._set_enabled(True)
                 self._restarts.raw.value += 1
 
diff --git a/runtimepy/net/stream/base.py b/runtimepy/net/stream/base.py
index 3479430..1f020e7 100644
--- a/runtimepy/net/stream/base.py
+++ b/runtimepy/net/stream/base.py
@@ -26,6 +26,12 @@ class PrefixedMessageConnection(_Connection):
         # Header parsing.
         self.processor = MessageProcessor(byte_order=self.byte_order)
 
+    def restart_extra(self) -> None:
+        """Additional tasks to perform when restarting."""
+
+        # Don't keep part of a message from the previous stream.
+        self.processor = MessageProcessor(byte_order=self.byte_order)
+
     def _send_message(
         self, data: BinaryMessage, addr: tuple[str, int] = None
     ) -> None:
diff --git a/runtimepy/net/tcp/http/__init__.py b/runtimepy/net/tcp/http/__init__.py
index 05bce5d..0d2d813 100644
--- a/runtimepy/net/tcp/http/__init__.py
+++ b/runtimepy/net/tcp/http/__init__.py
@@ -80,6 +80,16 @@ class HttpConnection(_TcpConnection):
         self.handlers[http.HTTPMethod.GET] = self.get_handler
         self.handlers[http.HTTPMethod.POST] = self.post_handler
 
+    def restart_extra(self) -> None:
+        """Additional tasks to perform when restarting."""
+
+        # Don't keep part of a message from the previous stream, or wait for
+        # its responses.
+        self.processor = HttpMessageProcessor()
+        self.expecting_response = False
+        self.responses_abandoned = 0
+        self.responses = asyncio.Queue(maxsize=1)
+
     @classmethod
     def get_log_prefix(cls, is_ssl: bool = False) -> str:
         """Get a logging prefix for this instance."""
@@ -141,14 +151,16 @@ class HttpConnection(_TcpConnection):
 
             self._send(request, data)
             self.expecting_response = True
+            responses = self.responses
             try:
-                result = await self.responses.get()
+                result = await responses.get()
             except asyncio.CancelledError:
                 # The next request can't get the response to this one.
-                if self.responses.empty():
-                    self.responses_abandoned += 1
+                if responses.empty():
+                    if responses is self.responses:
+                        self.responses_abandoned += 1
                 else:
-                    self.responses.get_nowait()
+                    responses.get_nowait()
                 raise
             finally:
                 self.expecting_response = self.responses_abandoned > 0
diff --git a/runtimepy/net/tcp/telnet/__init__.py b/runtimepy/net/tcp/telnet/__init__.py
index 512bd03..05e47d5 100644
--- a/runtimepy/net/tcp/telnet/__init__.py
+++ b/runtimepy/net/tcp/telnet/__init__.py
@@ -43,6 +43,14 @@ class Telnet(_TcpConnection):
     _option_pending: _Optional[TelnetCode] = None
     _decoder: _Optional[_IncrementalDecoder] = None
 
+    def restart_extra(self) -> None:
+        """Additional tasks to perform when restarting."""
+
+        # Don't keep part of a sequence from the previous stream.
+        self._command_pending = False
+        self._option_pending = None
+        self._decoder = None
+
     async def process_telnet_message(self, data: bytes) -> bool:
         """By default, treat all incoming data bytes as text."""
 
diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 19bc5ab..9c09e64 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -95,6 +95,12 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
 
         self._setup_async_commands(all_on, all_off)
 
+    def restart_extra(self) -> None:
+        """Additional tasks to perform when restarting."""
+
+        super().restart_extra()
+        self.prev_cmd = ""
+
     async def handle_command(
         self, args: Namespace, channel: Optional[FieldOrChannel]
     ) -> None:
-- 
2.43.0


From b7a942e0b9fb2ebd41155e73ed3648db9f266c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 061/117] fix: process a managed connection once at a time

---
 runtimepy/net/manager.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 66b671c..6749d5f 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -77,6 +77,7 @@ class ConnectionManager(LoggerMixin):
         stop_sig_task = _asyncio.create_task(stop_sig.wait())
         tasks: list[_asyncio.Task[None]] = []
         self._conns = []
+        processing: dict[_Connection, _asyncio.Task[None]] = {}
         new_conn_task: _Optional[_asyncio.Task[_Connection]] = None
 
         while not stop_sig.is_set():
@@ -102,21 +103,31 @@ class ConnectionManager(LoggerMixin):
 
                 # Check if this connection should be restarted.
                 elif conn.auto_restart:
-                    next_tasks.append(
-                        _asyncio.create_task(conn.process(stop_sig=stop_sig))
-                    )
+                    # Wait for the previous task to complete.
+                    task = processing[conn]
+                    if task.done():
+                        # Don't keep trying if restarting isn't possible.
+                        if task.cancelled() or task.exception() is not None:
+                            continue
+
+                        processing[conn] = _asyncio.create_task(
+                            conn.process(stop_sig=stop_sig)
+                        )
+                        next_tasks.append(processing[conn])
                     enabled.append(conn)
 
             self._conns = enabled
+            processing = {conn: processing[conn] for conn in enabled}
 
             # If a new connection was made, register a task for processing
             # it.
             if new_conn_task.done():
                 new_conn = new_conn_task.result()
                 self._conns.append(new_conn)
-                next_tasks.append(
-                    _asyncio.create_task(new_conn.process(stop_sig=stop_sig))
+                processing[new_conn] = _asyncio.create_task(
+                    new_conn.process(stop_sig=stop_sig)
                 )
+                next_tasks.append(processing[new_conn])
                 new_conn_task = None
 
             tasks = next_tasks
-- 
2.43.0


From b41df440630f9f02eb3c21466a12bdaabc2fe6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 062/117] fix: close connections that are still queued when a
 manager stops

---
 runtimepy/net/manager.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/manager.py b/runtimepy/net/manager.py
index 6749d5f..106069a 100644
--- a/runtimepy/net/manager.py
+++ b/runtimepy/net/manager.py
@@ -138,6 +138,15 @@ class ConnectionManager(LoggerMixin):
                 new_conn_task.cancel()
             if tasks:
                 with _suppress(_asyncio.TimeoutError):
-                    await _asyncio.wait_for(_asyncio.gather(*tasks), 1.0)
+                    await _asyncio.wait_for(
+                        _asyncio.gather(*tasks, return_exceptions=True), 1.0
+                    )
+                _log_exceptions(tasks)
+
+            # Connections that weren't handled yet still need to be closed.
+            while not self.queue.empty():
+                conn = self.queue.get_nowait()
+                conn.disable("stop signal")
+                await conn.close()
 
         self._running = False
-- 
2.43.0


From 1b14765f3da0a1eba7c2baab1ed3a86841917161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 063/117] fix: don't disable a restarted connection when its
 previous transport closes

---
 runtimepy/net/tcp/connection.py | 3 +++
 runtimepy/net/tcp/protocol.py   | 5 +++--
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/tcp/connection.py b/runtimepy/net/tcp/connection.py
index 02e3950..37eee04 100644
--- a/runtimepy/net/tcp/connection.py
+++ b/runtimepy/net/tcp/connection.py
@@ -117,6 +117,9 @@ class TcpConnection(_Connection, _TransportMixin):
         def callback(transport_protocol: TcpTransportProtocol) -> None:
             """Callback if the socket creation succeeds."""
 
+            # The previous transport can still be closing.
+            self._protocol.conn = None
+
             self.set_transport(transport_protocol[0])
             self._set_protocol(transport_protocol[1])
 
diff --git a/runtimepy/net/tcp/protocol.py b/runtimepy/net/tcp/protocol.py
index 00004b7..b4f7eca 100644
--- a/runtimepy/net/tcp/protocol.py
+++ b/runtimepy/net/tcp/protocol.py
@@ -24,7 +24,7 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
     """A simple streaming protocol that populates a message queue."""
 
     logger: _LoggerType
-    conn: _Connection
+    conn: _Optional[_Connection] = None
 
     def data_received(self, data: _BinaryMessage) -> None:
         """Handle incoming data."""
@@ -43,4 +43,5 @@ class QueueProtocol(_BinaryMessageQueueMixin, _Protocol):
 
         msg = "Disconnected." if exc is None else f"Disconnected: '{exc}'."
         self.logger.info(msg)
-        self.conn.disable("disconnected")
+        if self.conn is not None:
+            self.conn.disable("disconnected")
-- 
2.43.0


From 0e7fad822fad65aaafcc7795f616f86cb574e58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 064/117] fix: keep a manually set remote address when a UDP
 connection restarts

---
 runtimepy/net/udp/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/net/udp/connection.py b/runtimepy/net/udp/connection.py
index cfa4f8f..5399f8f 100644
--- a/runtimepy/net/udp/connection.py
+++ b/runtimepy/net/udp/connection.py
@@ -121,7 +121,13 @@ class UdpConnection(_Connection, _TransportMixin):
         def callback(transport_protocol: UdpTransportProtocol) -> None:
             """Callback if the socket creation succeeds."""
 
+            remote_address = self.remote_address
             self.set_transport(transport_protocol[0])
+
+            # Keep an address that was set manually.
+            if self.remote_address is None:
+                self.remote_address = remote_address
+
             self._set_protocol(transport_protocol[1])
 
         result = await try_udp_transport_protocol(
-- 
2.43.0


From 135a628b907d00b2545ee0d05526be82d8699ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 065/117] fix: don't count a closing websocket connection that
 wasn't counted yet

---
 runtimepy/net/server/websocket/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 1feaa59..3c1ea56 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -156,7 +156,7 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             state.clear_loggers()
 
         # Subtract from num_connections.
-        ui = self._get_ui()
+        ui = self._ui
         if ui:
             self.poll_connection_metrics = False
             ui.env.add_int("num_connections", -1)
-- 
2.43.0


From 6d96ccc06ac5abc4addbe09e2bddc259ce01084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 066/117] fix: retry connection attempts that fail with other
 network errors

---
 runtimepy/net/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/util.py b/runtimepy/net/util.py
index 9b86d02..6a4299a 100644
--- a/runtimepy/net/util.py
+++ b/runtimepy/net/util.py
@@ -219,7 +219,7 @@ async def try_log_connection_error(
 
     try:
         result = await future
-    except ConnectionError as exc:
+    except OSError as exc:
         if logger:
             logger.exception(message, exc_info=exc)
 
-- 
2.43.0


From c4cebad2c6c379ba36cc7c8bb7e5a8c888ce8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:31 +0000
Subject: [PATCH 067/117] fix: make exponential backoff exponential

---
 runtimepy/net/backoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/backoff.py b/runtimepy/net/backoff.py
index aa8ca4b..674f0ff 100644
--- a/runtimepy/net/backoff.py
+++ b/runtimepy/net/backoff.py
@@ -42,5 +42,5 @@ class ExponentialBackoff:
         """Sleep for the correct amount of time."""
 
         await asyncio.sleep(self.wait)
-        self.wait = min((2 ^ self.attempt) * self.interval, self.max_sleep)
+        self.wait = min((2**self.attempt) * self.interval, self.max_sleep)
         self.attempt += 1
-- 
2.43.0


From 22a9d31a8b329259c9d361754f1640ca090e97b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 068/117] fix: stop periodic tasks that fail or are disabled
 during an iteration

---
 runtimepy/task/basic/periodic.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 11d4848..5399300 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -164,14 +164,14 @@ class PeriodicTask(
                     iter_time,
                     self.period_s.value,
                 ):
-                    self._enabled.raw.value = await _asyncio.shield(
-                        self.dispatch()
-                    )
+                    # Don't re-enable a task that was disabled meanwhile.
+                    if not await _asyncio.shield(self.dispatch()):
+                        self.disable()
 
             # Check this synchronously. This may not be suitable for tasks
             # with long periods.
-            if stop_sig is not None:
-                self._enabled.raw.value = not stop_sig.is_set()
+            if stop_sig is not None and stop_sig.is_set():
+                self.disable()
 
             if self._enabled:
                 try:
-- 
2.43.0


From 44ad8e3b3beafcbe059b97bb16cb762c14cbefac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 069/117] fix: allow a periodic task to run again after an
 iteration raised an exception

---
 runtimepy/task/basic/periodic.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index 5399300..c8d652b 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -153,6 +153,17 @@ class PeriodicTask(
             "Task starting at %s.", _rate_str(self.period_s.value)
         )
 
+        try:
+            await self._run(stop_sig=stop_sig)
+        finally:
+            # An iteration can raise an exception.
+            self.disable()
+
+        self.logger.debug("Task completed.")
+
+    async def _run(self, stop_sig: _asyncio.Event = None) -> None:
+        """Run iterations while this task is enabled."""
+
         iter_time = _Double()
 
         while self._enabled:
@@ -184,8 +195,6 @@ class PeriodicTask(
                     self.logger.debug("Task was cancelled.")
                     self.disable()
 
-        self.logger.debug("Task completed.")
-
     async def stop_extra(self) -> None:
         """Extra actions to perform when this task is stopping."""
 
-- 
2.43.0


From f71d6d7d56e74ba31a11c9b58d5f57b32ad9ec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 070/117] fix: keep a paused task's period when its last
 iteration overran

---
 runtimepy/task/basic/periodic.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/task/basic/periodic.py b/runtimepy/task/basic/periodic.py
index c8d652b..61f3021 100644
--- a/runtimepy/task/basic/periodic.py
+++ b/runtimepy/task/basic/periodic.py
@@ -168,6 +168,7 @@ class PeriodicTask(
 
         while self._enabled:
             # When paused, don't run the iteration itself.
+            iter_time.value = 0.0
             if not self.paused:
                 with self.metrics.measure(
                     self._dispatch_rate,
-- 
2.43.0


From ef7b125a5da7c658328c4f2d519b79e8dc5994f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 071/117] fix: don't re-enable an asynchronous task that was
 disabled while dispatching

---
 runtimepy/task/asynchronous.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index 9844391..f5b0264 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -139,18 +139,16 @@ class AsyncTask(_LoggerMixin):
         self.enable()
 
         # Run this task's initialization.
-        self.enabled.raw.value &= await _asyncio.shield(
-            self.init(*args, **kwargs)
-        )
+        if not await _asyncio.shield(self.init(*args, **kwargs)):
+            self.disable()
 
         while self.enabled:
             # Keep track of the rate that this task is running at.
             start = eloop.time()
             self.rate_hz.raw.value = self.dispatch_rate(to_nanos(start))
 
-            self.enabled.raw.value &= await _asyncio.shield(
-                self.dispatch(*args, **kwargs)
-            )
+            if not await _asyncio.shield(self.dispatch(*args, **kwargs)):
+                self.disable()
             exec_time = eloop.time() - start
 
             # Update runtime metrics.
-- 
2.43.0


From 5b851dffb6f02542eee3ae420c7e48f5005cffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 072/117] fix: keep housekeeping when handling a command fails

---
 runtimepy/net/arbiter/housekeeping/__init__.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/housekeeping/__init__.py b/runtimepy/net/arbiter/housekeeping/__init__.py
index a7f7daa..553c7ae 100644
--- a/runtimepy/net/arbiter/housekeeping/__init__.py
+++ b/runtimepy/net/arbiter/housekeeping/__init__.py
@@ -68,9 +68,18 @@ class ConnectionMetricsPoller(_ArbiterTask):
         self.processors += list(self.app.conn_manager.connection_tasks)
 
         if self.processors:
-            await asyncio.gather(*self.processors)
+            results = await asyncio.gather(
+                *self.processors, return_exceptions=True
+            )
             self.processors.clear()
 
+            # A failing command shouldn't prevent others from being handled.
+            for result in results:
+                if isinstance(result, Exception):
+                    self.logger.error(
+                        "Exception while housekeeping:", exc_info=result
+                    )
+
         return True
 
 
-- 
2.43.0


From 06fefd56805774ab80bf73a95258f6c8525c424c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 073/117] fix: fail a stage when the results of its methods add
 up to zero

---
 runtimepy/net/arbiter/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index ef84b3e..bda5782 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -416,6 +416,10 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
                     duration_ns=duration_ns,
                 )
 
+            # Don't let failures cancel each other out.
+            if total == 0 and any(results):
+                total = -1
+
         # Keep track of stages that raise an exception.
         except Exception as exc:  # pylint: disable=broad-exception-caught
             stage_results = [
-- 
2.43.0


From b052a68bf7ff4d0acdc9aea2490d94d348bec580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 074/117] fix: don't wait for the initialization of a
 connection that was disabled

---
 runtimepy/net/arbiter/base.py |  2 +-
 runtimepy/net/connection.py   | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index bda5782..bfe525b 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -215,7 +215,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
         # Ensure connections are all initialized.
         await _asyncio.gather(
-            *(x.initialized.wait() for x in self._connections.values())
+            *(x.wait_initialized() for x in self._connections.values())
         )
 
     async def _build_structs(self, info: AppInfo) -> None:
diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index 1ca84be..c4dae95 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -228,6 +228,28 @@ class Connection(
         self.env.finalize(strict=False)
         self.initialized.set()
 
+    async def wait_initialized(self) -> None:
+        """
+        Wait for initialization to complete, or for this connection to be
+        disabled (if it won't be restarted).
+        """
+
+        while not self.initialized.is_set() and not (
+            self.disabled and not self.auto_restart
+        ):
+            tasks = [_asyncio.create_task(self.initialized.wait())]
+            if not self.disabled:
+                tasks.append(
+                    _asyncio.create_task(self.disabled_event.wait())
+                )
+            try:
+                await _asyncio.wait(
+                    tasks, return_when=_asyncio.FIRST_COMPLETED
+                )
+            finally:
+                for task in tasks:
+                    task.cancel()
+
     async def restart(self) -> bool:
         """
         Reset necessary underlying state for this connection to 'process'
-- 
2.43.0


From 43c79d63a27938d7a27102839cf700317b8ff0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 075/117] fix: close connections before an application ends

---
 runtimepy/net/arbiter/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index bfe525b..1c98e3c 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -451,6 +451,9 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             app=app, check_connections=check_connections, config=config
         )
 
+        # Allow connections to be closed.
+        await _asyncio.wait([conns], timeout=2.0)
+
         # Shutdown any pending tasks.
         pending = log_exceptions(self._servers + [conns], logger=self.logger)
         if pending:
-- 
2.43.0


From 74c000ebb07926cc23fadb3f935e776a977fb89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 076/117] fix: poll channel metrics in bits, not bytes, per
 second

---
 runtimepy/metrics/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 1fd517d..45ee6d3 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -55,7 +55,7 @@ class ChannelMetrics:
     def poll(self, time_ns: int = None) -> None:
         """Poll kbps tracking."""
 
-        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns)
+        self.kbps.value = self._kbps_tracker.poll(time_ns=time_ns) * 8
         self.message_rate.value = self._message_rate_tracker.poll(
             time_ns=time_ns
         )
-- 
2.43.0


From a22dc15a3eb323dcb26bd4b621d4a3c56ac8eefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 077/117] fix: reset the message rate of channel metrics

---
 runtimepy/metrics/channel.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/runtimepy/metrics/channel.py b/runtimepy/metrics/channel.py
index 45ee6d3..21133dc 100644
--- a/runtimepy/metrics/channel.py
+++ b/runtimepy/metrics/channel.py
@@ -78,6 +78,8 @@ class ChannelMetrics:
         """Reset metrics."""
 
         self.messages.value = 0
+        self.message_rate.value = 0.0
+        self._message_rate_tracker.reset()
         self.bytes.value = 0
         self.kbps.value = 0.0
         self._kbps_tracker.reset()
-- 
2.43.0


From 22671cf393d380992ea8ce7b56d742492baea2e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 078/117] fix: add to the end of a list that was asked for

---
 runtimepy/net/arbiter/config/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtimepy/net/arbiter/config/util.py b/runtimepy/net/arbiter/config/util.py
index 0c84173..b68cff6 100644
--- a/runtimepy/net/arbiter/config/util.py
+++ b/runtimepy/net/arbiter/config/util.py
@@ -16,9 +16,9 @@ def list_adder(dest: list[T], data: T, front: bool = True) -> None:
     """Handle adding to either the front or back of a list."""
 
     if front:
-        dest.append(data)
-    else:
         dest.insert(0, data)
+    else:
+        dest.append(data)
 
 
 def fix_kwargs(data: dict[str, _Any]) -> dict[str, _Any]:
-- 
2.43.0


From d12117ce750bc005d305642bfd991b091919b7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 079/117] fix: refuse to set the state of an outlet that
 doesn't exist

---
 runtimepy/net/tcp/telnet/np_05b.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index 9c09e64..d37c7ac 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -161,7 +161,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         result = False
         real_idx = idx - 1
 
-        if 0 <= real_idx <= self.num_ports:
+        if 0 <= real_idx < self.num_ports:
             if self.outlets_on[real_idx] != state:
                 await self.np05b_command(
                     Np05bStrings.SET_OUTLET, str(idx), "1" if state else "0"
-- 
2.43.0


From 82ebd7ac734890bcc8411794765a36c75dcb64d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:18 +0000
Subject: [PATCH 080/117] fix: ignore datagrams that aren't arrays of the
 expected struct

---
 runtimepy/net/arbiter/struct/__init__.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runtimepy/net/arbiter/struct/__init__.py b/runtimepy/net/arbiter/struct/__init__.py
index c6a2937..0abecc2 100644
--- a/runtimepy/net/arbiter/struct/__init__.py
+++ b/runtimepy/net/arbiter/struct/__init__.py
@@ -196,6 +196,16 @@ class UdpStructTransceiver(UdpConnection, Generic[T]):
 
         # Should we handle the other branch?
         if self.struct_rx is not None:
+            # Anything can arrive.
+            if len(data) % self.struct_rx.array.size != 0:
+                self.logger.error(
+                    "Ignoring %d bytes from %s:%d (struct size: %d).",
+                    len(data),
+                    *addr[:2],
+                    self.struct_rx.array.size,
+                )
+                return True
+
             for timestamp_ns in self.struct_rx.process_datagram(data):
                 self.handle_update(timestamp_ns, self.struct_rx, addr)
 
-- 
2.43.0


From 97bb18ff7ee71723244221917c7577639aede293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:40 +0000
Subject: [PATCH 081/117] fix: count more than 255 iterations of an
 asynchronous task

---
 runtimepy/task/asynchronous.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/task/asynchronous.py b/runtimepy/task/asynchronous.py
index f5b0264..8d568c6 100644
--- a/runtimepy/task/asynchronous.py
+++ b/runtimepy/task/asynchronous.py
@@ -55,7 +55,7 @@ class AsyncTask(_LoggerMixin):
 
             with env.names_pushed(METRICS_NAME):
                 # Track the number of times this task has been dispatched.
-                self.dispatches = env.int_channel("dispatches", kind="uint8")[
+                self.dispatches = env.int_channel("dispatches", kind="uint32")[
                     0
                 ]
 
-- 
2.43.0


From 265d9e18f78b18493fcece8a49683db013e42aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:52 +0000
Subject: [PATCH 082/117] fix: don't wait for servers that couldn't be started

---
 runtimepy/net/arbiter/base.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 1c98e3c..8e2ec43 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -228,6 +228,21 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
             for struct in self._structs.values():
                 struct.env.finalize(strict=False)
 
+    async def _wait_server(self) -> None:
+        """Wait for another server to start."""
+
+        started = _asyncio.create_task(self._servers_started.acquire())
+        await _asyncio.wait(
+            [started, *self._servers], return_when=_asyncio.FIRST_COMPLETED
+        )
+
+        # A server that couldn't be started doesn't signal anything.
+        if not started.done():
+            started.cancel()
+            for server in self._servers:
+                if server.done():
+                    server.result()
+
     async def _start_processes(self, stack: _AsyncExitStack) -> None:
         """Start processes."""
 
@@ -261,7 +276,7 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
 
         # Wait for servers to start.
         for _ in range(len(self._servers)):
-            await self._servers_started.acquire()
+            await self._wait_server()
 
         # Start processes.
         await self._start_processes(stack)
-- 
2.43.0


From 7a1e2312ede967f7d76115e1a5196e1aa01c0be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:53 +0000
Subject: [PATCH 083/117] fix: shut down servers and connections when an
 application can't be started

---
 runtimepy/net/arbiter/base.py | 33 ++++++++++++++++++---------------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/runtimepy/net/arbiter/base.py b/runtimepy/net/arbiter/base.py
index 8e2ec43..59b478c 100644
--- a/runtimepy/net/arbiter/base.py
+++ b/runtimepy/net/arbiter/base.py
@@ -461,23 +461,26 @@ class BaseConnectionArbiter(_NamespaceMixin, _LoggerMixin, TuiMixin):
         # Create task for connection manager.
         conns = _asyncio.create_task(self.manager.manage(self.stop_sig))
 
-        # Run application.
-        result = await self._entry(
-            app=app, check_connections=check_connections, config=config
-        )
-
-        # Allow connections to be closed.
-        await _asyncio.wait([conns], timeout=2.0)
+        try:
+            # Run application.
+            result = await self._entry(
+                app=app, check_connections=check_connections, config=config
+            )
+        finally:
+            # Allow connections to be closed.
+            await _asyncio.wait([conns], timeout=2.0)
 
-        # Shutdown any pending tasks.
-        pending = log_exceptions(self._servers + [conns], logger=self.logger)
-        if pending:
-            for task in pending:
-                task.cancel()
-                with _suppress(KeyboardInterrupt, _asyncio.CancelledError):
-                    await task
+            # Shutdown any pending tasks.
+            pending = log_exceptions(
+                self._servers + [conns], logger=self.logger
+            )
+            if pending:
+                for task in pending:
+                    task.cancel()
+                    with _suppress(KeyboardInterrupt, _asyncio.CancelledError):
+                        await task
 
-            assert not log_exceptions(pending, logger=self.logger)
+                assert not log_exceptions(pending, logger=self.logger)
 
         return int(result)
 
-- 
2.43.0


From 3ec840db1f265756466e7b075878a670bb10c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:39 +0000
Subject: [PATCH 084/117] fix: close a connection that's disabled before it's
 processed

---
 runtimepy/net/connection.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/net/connection.py b/runtimepy/net/connection.py
index c4dae95..264cb6a 100644
--- a/runtimepy/net/connection.py
+++ b/runtimepy/net/connection.py
@@ -312,6 +312,7 @@ class Connection(
 
         await self._handle_restart(stop_sig=stop_sig, backoff=backoff)
         if self.disabled:
+            await self.close()
             return
 
         self._tasks = [
-- 
2.43.0


From aa0e94a99b39556acd8894fd606b3dd18e15a985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:28 +0000
Subject: [PATCH 085/117] fix: send structs to the remote address of a
 connection that is not connected

---
 runtimepy/net/arbiter/struct/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/net/arbiter/struct/__init__.py b/runtimepy/net/arbiter/struct/__init__.py
index 0abecc2..ed70230 100644
--- a/runtimepy/net/arbiter/struct/__init__.py
+++ b/runtimepy/net/arbiter/struct/__init__.py
@@ -182,7 +182,7 @@ class UdpStructTransceiver(UdpConnection, Generic[T]):
 
             result = self.framer_tx.capture(sample=sample, flush=flush)
             if result:
-                self.sendto(result)
+                self.send_binary(result)
 
     def handle_update(
         self, timestamp_ns: int, instance: T, addr: tuple[str, int]
-- 
2.43.0


From 786d371a75ba6b3bc7780699dd781929f83e530a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 086/117] fix: send log messages with arguments of any type

---
 runtimepy/message/interface.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/runtimepy/message/interface.py b/runtimepy/message/interface.py
index f7f723d..1462e58 100644
--- a/runtimepy/message/interface.py
+++ b/runtimepy/message/interface.py
@@ -186,9 +186,12 @@ class JsonMessageInterface:
         # Stage any pending log messages.
         if self.list_handler:
             for record in self.list_handler.drain():
-                self.stage_remote_log(  # type: ignore
-                    record.msg, *record.args, level=record.levelno
-                )
+                # Arguments can be anything, not only what JSON supports.
+                try:
+                    msg = record.getMessage()
+                except (TypeError, ValueError):
+                    msg = str(record.msg)
+                self.stage_remote_log(msg, level=record.levelno)
 
         # Add any pending log messages to this message.
         if self._log_messages:
-- 
2.43.0


From ab350c0063e33daa3077d8f863489d0d75452c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 087/117] fix: clean up a peer program when its main task fails

---
 runtimepy/subprocess/program.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index 86fd710..51f0b80 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -195,9 +195,10 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
                 yield io_task, main_task, peer
         finally:
             logger.removeHandler(peer.list_handler)
-            for cancel in (io_task, main_task, heartbeat):
-                cancel.cancel()
-                await cancel
+            tasks = (io_task, main_task, heartbeat)
+            for task in tasks:
+                task.cancel()
+            await asyncio.gather(*tasks, return_exceptions=True)
 
             await peer.cleanup()
 
-- 
2.43.0


From 760307c147a45d4ea7cae138e5b9fc4d846d8a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 088/117] fix: signal the end of input when a message could not
 be processed

---
 runtimepy/subprocess/program.py | 47 +++++++++++++++++++--------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/runtimepy/subprocess/program.py b/runtimepy/subprocess/program.py
index 51f0b80..ace316c 100644
--- a/runtimepy/subprocess/program.py
+++ b/runtimepy/subprocess/program.py
@@ -94,32 +94,39 @@ class PeerProgram(RuntimepyPeerInterface, PsutilMixin):
         if hasattr(os, "set_blocking"):
             getattr(os, "set_blocking")(buffer.fileno(), False)
 
-        accumulator = 0
+        try:
+            with suppress(asyncio.CancelledError):
+                await self._process_io(buffer)
 
-        with suppress(asyncio.CancelledError):
-            while True:
-                data: bytes = buffer.read(1)
-                if data is None:
-                    await asyncio.sleep(self.poll_period_s)
-                    continue
+        # Signal the end of input processing.
+        finally:
+            self.got_eof.set()
 
-                if not data:
-                    break
+    async def _process_io(self, buffer: BinaryIO) -> None:
+        """Process messages until the end of input."""
 
-                accumulator += 1
+        accumulator = 0
 
-                # Process incoming messages.
-                saw_msg = False
-                for msg in self.processor.messages(data):
-                    await self.process_json(msg)
-                    saw_msg = True
+        while True:
+            data: bytes = buffer.read(1)
+            if data is None:
+                await asyncio.sleep(self.poll_period_s)
+                continue
 
-                if saw_msg:
-                    self.stdin_metrics.increment(accumulator)
-                    accumulator = 0
+            if not data:
+                break
 
-        # Signal the end of input processing.
-        self.got_eof.set()
+            accumulator += 1
+
+            # Process incoming messages.
+            saw_msg = False
+            for msg in self.processor.messages(data):
+                await self.process_json(msg)
+                saw_msg = True
+
+            if saw_msg:
+                self.stdin_metrics.increment(accumulator)
+                accumulator = 0
 
     @classmethod
     def run_standard(
-- 
2.43.0


From d74f8a6903f3f3115f16cc63541464c51b64c800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 089/117] fix: ignore standard output that is not queued

---
 runtimepy/subprocess/protocol.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtimepy/subprocess/protocol.py b/runtimepy/subprocess/protocol.py
index a1c2272..ce9d88f 100644
--- a/runtimepy/subprocess/protocol.py
+++ b/runtimepy/subprocess/protocol.py
@@ -78,8 +78,9 @@ class RuntimepySubprocessProtocol(SubprocessProtocol):
     def pipe_data_received(self, fd: int, data: bytes) -> None:
         """Handle incoming pipe data."""
 
-        if fd == 1 and self.stdout_queue is not None:
-            self.stdout_queue.put_nowait(data)
+        if fd == 1:
+            if self.stdout_queue is not None:
+                self.stdout_queue.put_nowait(data)
         elif self.stderr_queue is not None:
             assert fd == 2, fd
             self.stderr_queue.put_nowait(data)
-- 
2.43.0


From 958967e23f92d9493baad4d6300a7e227e5af4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:54 +0000
Subject: [PATCH 090/117] fix: stop processing commands when a peer context
 ends

---
 runtimepy/subprocess/peer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtimepy/subprocess/peer.py b/runtimepy/subprocess/peer.py
index 68930c5..94b024b 100644
--- a/runtimepy/subprocess/peer.py
+++ b/runtimepy/subprocess/peer.py
@@ -69,6 +69,10 @@ class RuntimepyPeer(RuntimepyPeerInterface):
             except asyncio.CancelledError:
                 keep_going = False
 
+        # Don't leave commands pending.
+        if task is not None:
+            task.cancel()
+
     @asynccontextmanager
     async def _context(self: T) -> AsyncIterator[T]:
         """A managed context for the peer."""
-- 
2.43.0


From 19a72111fd87da26c4725465e9b0052a3e4e1353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:18 +0000
Subject: [PATCH 091/117] fix: send custom commands for a peer to the peer

---
 runtimepy/mixins/async_command.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/mixins/async_command.py b/runtimepy/mixins/async_command.py
index 1a168a8..9425a1b 100644
--- a/runtimepy/mixins/async_command.py
+++ b/runtimepy/mixins/async_command.py
@@ -55,7 +55,10 @@ class AsyncCommandProcessingMixin(LoggerMixin):
         while not self.outgoing_commands.empty():
             params = self.outgoing_commands.get_nowait()
 
-            if params[0].command == ChannelCommand.CUSTOM:
+            if (
+                params[0].command == ChannelCommand.CUSTOM
+                and not params[0].remote
+            ):
                 await self.command.handle_custom_command(*params)
             else:
                 await self.handle_command(*params)
-- 
2.43.0


From 36feb7070c8dc35ea5d83b2695079cf46b4cc93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:02 +0000
Subject: [PATCH 092/117] fix: keep configured applications when waiting to
 stop

---
 runtimepy/net/arbiter/imports/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtimepy/net/arbiter/imports/util.py b/runtimepy/net/arbiter/imports/util.py
index 1dffd9c..c02efb2 100644
--- a/runtimepy/net/arbiter/imports/util.py
+++ b/runtimepy/net/arbiter/imports/util.py
@@ -25,6 +25,9 @@ def get_apps(
     elif isinstance(module_path, str):
         module_path = [module_path]
 
+    # Don't change the configuration itself.
+    module_path = list(module_path)
+
     if wait_for_stop:
         module_path.append("runtimepy.net.apps.wait_for_stop")
 
-- 
2.43.0


From 1746cbea44eec0364adcbdd67958edbb6c1ee564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:20 +0000
Subject: [PATCH 093/117] fix: return only what was received after a command as
 its response

---
 runtimepy/net/tcp/scpi/__init__.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/tcp/scpi/__init__.py b/runtimepy/net/tcp/scpi/__init__.py
index 57397ad..7917f5f 100644
--- a/runtimepy/net/tcp/scpi/__init__.py
+++ b/runtimepy/net/tcp/scpi/__init__.py
@@ -17,7 +17,7 @@ class ScpiConnection(TcpConnection):
         """Initialize this instance."""
 
         self.command_lock = asyncio.Lock()
-        self.message_queue: asyncio.Queue[str] = asyncio.Queue(maxsize=1)
+        self.message_queue: asyncio.Queue[str] = asyncio.Queue()
 
     async def async_init(self) -> bool:
         """Initialize this instance."""
@@ -54,6 +54,12 @@ class ScpiConnection(TcpConnection):
             command += "?"
 
         async with self.command_lock:
+            # Anything received before this command isn't a response to it.
+            while not self.message_queue.empty():
+                self.logger.warning(
+                    "Ignoring '%s'.", self.message_queue.get_nowait()
+                )
+
             self.send_text(command + "\n")
 
             if response or query:
-- 
2.43.0


From 2a4541368ff28c029e3b0d3970d87a97ec5f8894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:20 +0000
Subject: [PATCH 094/117] fix: don't take a late outlet status for the response
 to a new request

---
 runtimepy/net/tcp/telnet/np_05b.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index d37c7ac..b8a756a 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -147,6 +147,11 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
     async def request_outlet_status(self) -> None:
         """Request that the endpoint sends information about outlet status."""
 
+        # A response that nothing waits for anymore (timeout) isn't for this
+        # request.
+        while not self.outlet_status_sem.locked():
+            await self.outlet_status_sem.acquire()
+
         self._send_np05b(Np05bStrings.OUTLET_STATUS)
 
         # Wait for the device to respond.
-- 
2.43.0


From 26db5a372a5989574e11e585a06ed3cbc4fe5919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:38 +0000
Subject: [PATCH 095/117] fix: keep processing NP-05B output after a missing or
 invalid response

---
 runtimepy/net/tcp/telnet/np_05b.py | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/runtimepy/net/tcp/telnet/np_05b.py b/runtimepy/net/tcp/telnet/np_05b.py
index b8a756a..039ded8 100644
--- a/runtimepy/net/tcp/telnet/np_05b.py
+++ b/runtimepy/net/tcp/telnet/np_05b.py
@@ -38,6 +38,16 @@ class Np05bStrings(Enum):
         """Determine if some string data is a command string."""
         return data.startswith("$A")
 
+    @staticmethod
+    def is_known(data: str) -> bool:
+        """Determine if some string data is a known command string."""
+        return data[:3] in {x.value for x in Np05bStrings}
+
+    @staticmethod
+    def is_response(data: str) -> bool:
+        """Determine if some string data is a response string."""
+        return data[:3] in (Np05bStrings.OK.value, Np05bStrings.FAIL.value)
+
 
 class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
     """
@@ -182,7 +192,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
         """Process a command response from the NP-05B."""
 
         parts = response.split(",")
-        result = Np05bStrings(parts[0])
+        result = Np05bStrings(parts[0][:3])
 
         if result is Np05bStrings.FAIL:
             self.logger.error(
@@ -201,7 +211,8 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
             if result is Np05bStrings.OK:
                 # Reverse the string because the output is sent in reverse
                 # order.
-                for idx, val in enumerate(parts[1][::-1]):
+                status = parts[1].strip()[::-1] if len(parts) > 1 else ""
+                for idx, val in enumerate(status[: self.num_ports]):
                     prev = self.outlets_on[idx]
                     curr = val == "1"
 
@@ -238,10 +249,11 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
                 continue
 
             if Np05bStrings.is_command(line):
-                # The device echo's incoming commands, so if the current
-                # and previous lines have command markers, we can process
-                # this line as the response.
-                if Np05bStrings.is_command(self.prev_cmd):
+                # The device echo's incoming commands, so a response is for
+                # the command that was echoed last.
+                if not Np05bStrings.is_response(line):
+                    self.prev_cmd = line if Np05bStrings.is_known(line) else ""
+                elif self.prev_cmd:
                     self.process_response(
                         Np05bStrings(self.prev_cmd[:3]),
                         self.prev_cmd[3:].strip(),
@@ -249,7 +261,7 @@ class Np05bConnection(BasicTelnet, AsyncCommandProcessingMixin):
                     )
                     self.prev_cmd = ""
                 else:
-                    self.prev_cmd = line
+                    self.logger.warning("Unexpected response '%s'.", line)
 
             # Log lines that aren't commands or responses.
             else:
-- 
2.43.0


From c8b1ccb4c6b888a9707b00b7803906ee060fbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 096/117] fix: keep a pair of websocket connections open

---
 runtimepy/net/websocket/connection.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index e406d66..c1cc05e 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -171,12 +171,17 @@ class WebsocketConnection(Connection):
         """Obtain a connected pair of WebsocketConnection objects."""
 
         server_conn: _Optional[T] = None
+        connected = _asyncio.Event()
 
         async def server_init(protocol: _ServerConnection) -> None:
             """Create one side of the connection and update the reference."""
             nonlocal server_conn
             assert server_conn is None
             server_conn = cls(protocol)
+            connected.set()
+
+            # The connection is closed when this handler returns.
+            await protocol.wait_closed()
 
         async with _AsyncExitStack() as stack:
             if serve_kwargs is None:
@@ -197,6 +202,7 @@ class WebsocketConnection(Connection):
             )
 
             # Connect a client and yield both sides of the connection.
+            await connected.wait()
             assert server_conn is not None
             yield server_conn, client_conn
 
-- 
2.43.0


From e3614d5be238e802055cb110ac9e6bcf17e75444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:53 +0000
Subject: [PATCH 097/117] fix: count the messages and bytes that websocket
 connections transfer

---
 runtimepy/net/websocket/connection.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/runtimepy/net/websocket/connection.py b/runtimepy/net/websocket/connection.py
index c1cc05e..c231591 100644
--- a/runtimepy/net/websocket/connection.py
+++ b/runtimepy/net/websocket/connection.py
@@ -71,18 +71,26 @@ class WebsocketConnection(Connection):
 
         data = await self._handle_connection_closed(self.protocol.recv())
         if data is not None:
-            self.metrics.rx.increment(len(data))
+            self.metrics.rx.increment(
+                len(data.encode() if isinstance(data, str) else data)
+            )
         return data
 
+    async def _send(self, message: _Union[BinaryMessage, str]) -> bool:
+        """Send a message and return whether or not it was sent."""
+
+        await self.protocol.send(message)
+        return True
+
     async def _send_text_message(self, data: str) -> None:
         """Send a text message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        if await self._handle_connection_closed(self._send(data)):
+            self.metrics.tx.increment(len(data.encode()))
 
     async def _send_binay_message(self, data: BinaryMessage) -> None:
         """Send a binary message."""
-        await self._handle_connection_closed(self.protocol.send(data))
-        self.metrics.tx.increment(len(data))
+        if await self._handle_connection_closed(self._send(data)):
+            self.metrics.tx.increment(len(data))
 
     async def close(self) -> None:
         """Close this connection."""
-- 
2.43.0


From 17d12d875fe11830aacdaa0743bda7db5542f244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:49 +0000
Subject: [PATCH 098/117] fix: send tabs the values that changed right before
 they were hidden

---
 runtimepy/net/server/app/env/tab/message.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/server/app/env/tab/message.py b/runtimepy/net/server/app/env/tab/message.py
index 8d7813c..2caad8a 100644
--- a/runtimepy/net/server/app/env/tab/message.py
+++ b/runtimepy/net/server/app/env/tab/message.py
@@ -46,12 +46,25 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
     ) -> None:
         """Handle 'shown' state changing."""
 
-        state.shown = shown
+        was_shown, state.shown = state.shown, shown
         env = self.command.env
 
         # Always sample current values.
         latest = env.values()
 
+        # Values that weren't sent yet aren't known to the UI.
+        for name in state.points:
+            state.latest_ui_values.pop(name, None)
+            if not state.shown:
+                latest.pop(name, None)
+
+        # Changes aren't observed while hidden.
+        if not was_shown and not state.shown:
+            latest.clear()
+
+        # Stop observing channel events.
+        state.clear_telemetry()
+
         if state.shown:
             # Send missing or changed values.
             if latest != state.latest_ui_values:
@@ -68,8 +81,6 @@ class ChannelEnvironmentTabMessaging(ChannelEnvironmentTabBase):
             # Begin observing channel events for this environment.
             for name in env.names:
                 self._setup_callback(name, state)
-        else:
-            state.clear_telemetry()
 
         # Save current UI state.
         state.latest_ui_values.update(latest)
-- 
2.43.0


From e59f91270e759ef7c995313b1decb1d7c68f2a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:14 +0000
Subject: [PATCH 099/117] fix: don't serve the cached document of another
 application

---
 runtimepy/net/server/app/create.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/server/app/create.py b/runtimepy/net/server/app/create.py
index fde6c6a..10e02c8 100644
--- a/runtimepy/net/server/app/create.py
+++ b/runtimepy/net/server/app/create.py
@@ -17,7 +17,6 @@ from runtimepy.net.http.response import ResponseHeader
 from runtimepy.net.server.app.base import WebApplication
 from runtimepy.net.server.html import HtmlApp
 
-DOCUMENTS: dict[str, Html] = {}
 T = TypeVar("T")
 
 
@@ -39,6 +38,8 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
     the originally composed document.
     """
 
+    cached: Optional[Html] = None
+
     async def cached_app(
         document: Html,
         request: RequestHeader,
@@ -47,17 +48,17 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
     ) -> Html:
         """A simple 'Hello, world!' application."""
 
+        nonlocal cached
+
         with LoggerMixin(logger=app.logger).log_time(
             "Composing HTML document"
         ):
             populate = True
 
-            compose_name = compose.__name__
-
             # Use the already-rendered document.
             if config_param(app, "caching", True):
-                if compose_name in DOCUMENTS:
-                    document = DOCUMENTS[compose_name]
+                if cached is not None:
+                    document = cached
                     populate = False
 
             if populate:
@@ -65,7 +66,7 @@ def create_cacheable_app(app: AppInfo, compose: HtmlAppComposer) -> HtmlApp:
                 document = compose(
                     app, document, request, response, request_data
                 )
-                DOCUMENTS[compose_name] = document
+                cached = document
 
         return document
 
-- 
2.43.0


From e45e812fcab5229d18b59a4e3b852da34438e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:14 +0000
Subject: [PATCH 100/117] fix: show descriptions with quotes as they are in
 tooltips

---
 runtimepy/net/html/bootstrap/elements.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtimepy/net/html/bootstrap/elements.py b/runtimepy/net/html/bootstrap/elements.py
index e3b907a..dab4f1b 100644
--- a/runtimepy/net/html/bootstrap/elements.py
+++ b/runtimepy/net/html/bootstrap/elements.py
@@ -3,6 +3,7 @@ A module for creating various bootstrap-related elements.
 """
 
 # built-in
+from html import escape
 from io import StringIO
 from typing import Optional
 
@@ -29,7 +30,7 @@ def flex(kind: str = "row", **kwargs) -> Element:
 def set_tooltip(element: Element, data: str, placement: str = "right") -> None:
     """Set a tooltip on an element."""
 
-    element["data-bs-title"] = data
+    element["data-bs-title"] = escape(data)
     element["data-bs-placement"] = placement
 
     # Should we use another mechanism for this?
-- 
2.43.0


From 5abfd71007612d5711928d57df550f44ec3caea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:55 +0000
Subject: [PATCH 101/117] fix: update UI metrics when any of several
 connections closes

---
 runtimepy/net/server/struct/__init__.py    |  3 +++
 runtimepy/net/server/websocket/__init__.py | 22 +++++-----------------
 2 files changed, 8 insertions(+), 17 deletions(-)

diff --git a/runtimepy/net/server/struct/__init__.py b/runtimepy/net/server/struct/__init__.py
index 8783f51..8a27a30 100644
--- a/runtimepy/net/server/struct/__init__.py
+++ b/runtimepy/net/server/struct/__init__.py
@@ -19,6 +19,9 @@ class UiState(RuntimeStruct, PsutilMixin):
 
     json_metrics: ConnectionMetrics
 
+    # The connection that updates this struct.
+    poller: Optional[object] = None
+
     time_ms: Float
     frame_period_ms: Float
 
diff --git a/runtimepy/net/server/websocket/__init__.py b/runtimepy/net/server/websocket/__init__.py
index 3c1ea56..dec0829 100644
--- a/runtimepy/net/server/websocket/__init__.py
+++ b/runtimepy/net/server/websocket/__init__.py
@@ -27,7 +27,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
     tabs: dict[str, TabState]
 
     poll_governor: RateLimiter
-    poll_connection_metrics: bool
 
     _ui: Optional[UiState]
 
@@ -51,19 +50,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             ui = UiState.singleton()
 
             if ui is not None and ui.env.finalized:
-
-                def check_metrics_poll(_: int, curr: int) -> None:
-                    """
-                    Register change handler on 'num_connections' primitive.
-                    """
-
-                    self.poll_connection_metrics = (
-                        self.poll_connection_metrics or curr == 1
-                    )
-
-                chan, _ = ui.env["num_connections"]
-                chan.raw.register_callback(check_metrics_poll)  # type: ignore
-
                 # Add to num_connections.
                 ui.env.add_int("num_connections", 1)
                 self._ui = ui
@@ -74,7 +60,9 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         """Update UI-specific state."""
 
         # Only one connection needs to perform this task.
-        if self.poll_connection_metrics and self.poll_governor():
+        if ui.poller is None:
+            ui.poller = self
+        if ui.poller is self and self.poll_governor():
             # Update time.
             ui.env["time_ms"] = time
             ui.env["frame_period_ms"] = time - self.ui_time
@@ -136,7 +124,6 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
             to_nanos(1.0 / 250.0), source=metrics_time_ns
         )
 
-        self.poll_connection_metrics = False
         self._ui = None
 
     async def async_init(self) -> bool:
@@ -158,7 +145,8 @@ class RuntimepyWebsocketConnection(WebsocketJsonMessageConnection):
         # Subtract from num_connections.
         ui = self._ui
         if ui:
-            self.poll_connection_metrics = False
+            if ui.poller is self:
+                ui.poller = None
             ui.env.add_int("num_connections", -1)
 
 
-- 
2.43.0


From 7f7d3f6496c5ad7d94544b682d6e899d84ff3f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 102/117] fix: don't end tasks when the number of steps of a
 sinusoid is zero

---
 runtimepy/mixins/trig.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/mixins/trig.py b/runtimepy/mixins/trig.py
index 26447d2..eeff30e 100644
--- a/runtimepy/mixins/trig.py
+++ b/runtimepy/mixins/trig.py
@@ -75,6 +75,9 @@ class TrigMixin:
     def dispatch_trig(self, step: int) -> None:
         """Dispatch trig channel updates."""
 
-        self.step_angle = (math.tau / self.steps.value) * step
+        # The angle can't change without steps.
+        if self.steps.value:
+            self.step_angle = (math.tau / self.steps.value) * step
+
         self._update_sin()
         self._update_cos()
-- 
2.43.0


From 249f3e0aa0130acfaf810e5ec84fbfa04804901a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 103/117] fix: don't end the telemetry task when its flush
 count is zero

---
 runtimepy/telemetry/sample.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtimepy/telemetry/sample.py b/runtimepy/telemetry/sample.py
index a2a2064..62c7e71 100644
--- a/runtimepy/telemetry/sample.py
+++ b/runtimepy/telemetry/sample.py
@@ -101,7 +101,9 @@ class SampleTelemetryTask(ArbiterTask, AsyncCommandProcessingMixin):
 
         self.tx_conn.capture()
 
-        if self.metrics.dispatches.value % self.flush_count.value == 0:
+        # The count can be set to zero.
+        flush_count = max(self.flush_count.value, 1)
+        if self.metrics.dispatches.value % flush_count == 0:
             self.tx_conn.capture(sample=False, flush=True)
 
         return True
-- 
2.43.0


From 2aa3a238c4a67c6c852c657334166c65c9ed3d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 104/117] fix: log captured lines whole, also those after empty
 ones

---
 runtimepy/mixins/logging.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/runtimepy/mixins/logging.py b/runtimepy/mixins/logging.py
index d1d5003..082b144 100644
--- a/runtimepy/mixins/logging.py
+++ b/runtimepy/mixins/logging.py
@@ -95,6 +95,9 @@ class LogCaptureMixin:
     # Open aiofiles handles.
     streams: list[tuple[int, Any]]
 
+    # The beginnings of lines that aren't complete yet.
+    partial: dict[int, str]
+
     # Set false to only forward to ListLogger handlers. Required for when the
     # system log / process-management logs are being forwarded (otherwise also
     # logging would lead to infinite spam).
@@ -105,6 +108,7 @@ class LogCaptureMixin:
     ) -> None:
         """Initialize this task with application information."""
 
+        self.partial = {}
         self.streams = [
             (
                 LogLevel.normalize(level),
@@ -126,8 +130,15 @@ class LogCaptureMixin:
     async def dispatch_log_capture(self) -> None:
         """Get the next line from this log stream."""
 
-        for level, stream in self.streams:
-            line = (await stream.readline()).rstrip()
-            while line:
-                self.log_line(level, line)
-                line = (await stream.readline()).rstrip()
+        for idx, (level, stream) in enumerate(self.streams):
+            data = await stream.readline()
+            while data:
+                data = self.partial.pop(idx, "") + data
+
+                # Wait for the rest of a line.
+                if not data.endswith("\n"):
+                    self.partial[idx] = data
+                elif line := data.rstrip():
+                    self.log_line(level, line)
+
+                data = await stream.readline()
-- 
2.43.0


From 88c73f05a053b50a9b73bd646531ff5254b31bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 105/117] fix: don't move the cursor out of the window to the
 left or top

---
 runtimepy/tui/cursor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/tui/cursor.py b/runtimepy/tui/cursor.py
index 69c5301..faa1c5f 100644
--- a/runtimepy/tui/cursor.py
+++ b/runtimepy/tui/cursor.py
@@ -34,7 +34,7 @@ class Cursor:
         if new_x is None:
             new_x = self.x.value
 
-        result = new_y < self.height and new_x < self.width
+        result = 0 <= new_y < self.height and 0 <= new_x < self.width
         if result:
             self.window.move(new_y, new_x)
             self.y.value = new_y
-- 
2.43.0


From 42c3f8a4d96c31ae54d65f8471b5807bbefb0a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 106/117] fix: draw channel names again when the window is
 resized

---
 runtimepy/tui/channels/__init__.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtimepy/tui/channels/__init__.py b/runtimepy/tui/channels/__init__.py
index 598cf74..d295ce5 100644
--- a/runtimepy/tui/channels/__init__.py
+++ b/runtimepy/tui/channels/__init__.py
@@ -37,6 +37,7 @@ class ChannelTui(TuiMixin):
         self.env = env
         self.channel_names: list[str] = []
         self.value_col: int = 0
+        self.value_widths: dict[str, int] = {}
 
     @property
     def header(self) -> CursesWindow:
@@ -63,16 +64,22 @@ class ChannelTui(TuiMixin):
 
             # Collect channel names from the environment.
             self.channel_names = sorted(self.env.names)
-            window = self.body
 
             # Initialize channel names.
-            for idx, item in enumerate(self.channel_names):
-                window.addstr(1 + idx, 1, item)
+            for item in self.channel_names:
                 self.value_col = max(self.value_col, len(item))
             self.value_col += 2
+            self.draw_names()
 
         return result
 
+    def draw_names(self) -> None:
+        """Draw channel names."""
+
+        for idx, item in enumerate(self.channel_names):
+            self.body.addstr(1 + idx, 1, item)
+        self.value_widths.clear()
+
     def update_dimensions(self) -> CursesWindow:
         """Handle an update to the window's dimensions."""
 
@@ -101,6 +108,7 @@ class ChannelTui(TuiMixin):
         body.clear()
         body.box()
         self._body = body
+        self.draw_names()
 
     async def handle_char(self, char: int) -> bool:
         """Handle character input."""
-- 
2.43.0


From d502820e319f767d35a4994b16df10604cfa0b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 107/117] fix: show whole values and enumerations in the
 terminal interface

---
 runtimepy/tui/channels/__init__.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtimepy/tui/channels/__init__.py b/runtimepy/tui/channels/__init__.py
index d295ce5..b74c4e4 100644
--- a/runtimepy/tui/channels/__init__.py
+++ b/runtimepy/tui/channels/__init__.py
@@ -143,6 +143,13 @@ class ChannelTui(TuiMixin):
                 val_str = f"{val:5.6f}"
             elif isinstance(val, int):
                 val_str = f"{val:<5d}"
+            elif isinstance(val, str):
+                val_str = val
+
+            # Overwrite what's left of a longer value.
+            width = self.value_widths.get(item, 0)
+            self.value_widths[item] = len(val_str)
+            val_str = val_str.ljust(width)
 
             window.addstr(1 + idx, self.value_col, val_str)
 
-- 
2.43.0


From 941df73e719dd874e1ac4f5ebee4cad66fecaadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 108/117] fix: close the socket for MTU discovery when
 connecting fails

---
 runtimepy/net/mtu.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/runtimepy/net/mtu.py b/runtimepy/net/mtu.py
index 12681b6..dac12ee 100644
--- a/runtimepy/net/mtu.py
+++ b/runtimepy/net/mtu.py
@@ -103,12 +103,11 @@ def host_discover_mtu(
     """Perform MTU discovery given a local and remote host plus probe size."""
 
     sock = get_free_socket(local=local.zero_port(), kind=kind)
-    sock.connect(destination.address_str_tuple)
-    result = socket_discover_mtu(
-        sock, probe_size, fallback, probe_create=probe_create
-    )
-    sock.close()
-    return result
+    with sock:
+        sock.connect(destination.address_str_tuple)
+        return socket_discover_mtu(
+            sock, probe_size, fallback, probe_create=probe_create
+        )
 
 
 def discover_mtu(
-- 
2.43.0


From d9940bd1363fc6f9a19bc6b11c6565cda8108586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:01 +0000
Subject: [PATCH 109/117] fix: close the socket when it can't be bound

---
 runtimepy/net/util.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/runtimepy/net/util.py b/runtimepy/net/util.py
index 6a4299a..a9506a3 100644
--- a/runtimepy/net/util.py
+++ b/runtimepy/net/util.py
@@ -185,9 +185,13 @@ def get_free_socket(
     local = normalize_host(local)
 
     sock = _socket.socket(local.family, kind)
-    if reuse:
-        sock.setsockopt(_socket.SOL_SOCKET, _socket.SO_REUSEADDR, 1)
-    sock.bind(local.address_str_tuple)
+    try:
+        if reuse:
+            sock.setsockopt(_socket.SOL_SOCKET, _socket.SO_REUSEADDR, 1)
+        sock.bind(local.address_str_tuple)
+    except OSError:
+        sock.close()
+        raise
     return sock
 
 
-- 
2.43.0


From 315fb9f1d56ebd954593e4fc363ffa1e193934af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:49 +0000
Subject: [PATCH 110/117] fix: use the configured number of iterations to step

---
 runtimepy/control/step.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtimepy/control/step.py b/runtimepy/control/step.py
index 0284215..202547c 100644
--- a/runtimepy/control/step.py
+++ b/runtimepy/control/step.py
@@ -117,6 +117,7 @@ class ToggleStepper(RuntimeStruct):
             controls="steps_1_1000",
             description="The number of iterations to step.",
             commandable=True,
+            default=self.count.value,
         )
         self.env.channel(
             "counts", self.counts, description="Total number of counts."
-- 
2.43.0


From 06dea5d1127a31f730c0eabcc57dfbdf46cf7a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:11 +0000
Subject: [PATCH 111/117] fix: close connections that are made while a server
 stops

---
 runtimepy/net/tcp/connection.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtimepy/net/tcp/connection.py b/runtimepy/net/tcp/connection.py
index 37eee04..155803c 100644
--- a/runtimepy/net/tcp/connection.py
+++ b/runtimepy/net/tcp/connection.py
@@ -202,6 +202,13 @@ class TcpConnection(_Connection, _TransportMixin):
             """Call the appication callback and enqueue the new connection."""
             if callback is not None:
                 callback(conn)
+
+            # The manager may not handle any more connections at this point.
+            if stop_sig.is_set():
+                conn.disable("stop signal")
+                conn._transport.close()
+                return
+
             assert manager is not None
             manager.queue.put_nowait(conn)
 
-- 
2.43.0


From 2f1bf80fcd11aeb871d34b188d0feedd58c96cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:22 +0000
Subject: [PATCH 112/117] fix: record the events of bit fields to files

---
 runtimepy/channel/environment/command/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtimepy/channel/environment/command/__init__.py b/runtimepy/channel/environment/command/__init__.py
index 783bc14..369aaab 100644
--- a/runtimepy/channel/environment/command/__init__.py
+++ b/runtimepy/channel/environment/command/__init__.py
@@ -105,7 +105,7 @@ class GlobalEnvironment(UserDict[str, ChannelCommandProcessor], LoggerMixin):
         """Enable event streaming to a file for an environment by name."""
 
         with self.export(env).joinpath(path).open("wb") as path_fd:
-            with self[env].env.channels.registered(
+            with self[env].env.registered(
                 path_fd, pattern=pattern, exact=exact
             ) as chans:
                 yield chans
-- 
2.43.0


From 2e04d6550adf38316ecac5f30d5a869e53e62e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:22 +0000
Subject: [PATCH 113/117] fix: write metadata of recordings that end with an
 exception

---
 runtimepy/channel/environment/command/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtimepy/channel/environment/command/__init__.py b/runtimepy/channel/environment/command/__init__.py
index 369aaab..853ea4d 100644
--- a/runtimepy/channel/environment/command/__init__.py
+++ b/runtimepy/channel/environment/command/__init__.py
@@ -212,10 +212,11 @@ class GlobalEnvironment(UserDict[str, ChannelCommandProcessor], LoggerMixin):
                 "Event-telemetry logged context", reminder=True
             ):
                 metadata["start_ns"] = default_time_ns()
-                yield name_channels
-                metadata["end_ns"] = default_time_ns()
-
-        self.write_meta(metadata)
+                try:
+                    yield name_channels
+                finally:
+                    metadata["end_ns"] = default_time_ns()
+                    self.write_meta(metadata)
 
     def clear(self) -> None:
         """Log environments that get cleared when clearing."""
-- 
2.43.0


From bb3a8737409bbf09b0c0f43b4ea881120c491030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:35 +0000
Subject: [PATCH 114/117] fix: read recordings from their start

---
 runtimepy/channel/environment/command/__init__.py | 2 ++
 runtimepy/channel/registry.py                     | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/runtimepy/channel/environment/command/__init__.py b/runtimepy/channel/environment/command/__init__.py
index 853ea4d..482f837 100644
--- a/runtimepy/channel/environment/command/__init__.py
+++ b/runtimepy/channel/environment/command/__init__.py
@@ -116,6 +116,8 @@ class GlobalEnvironment(UserDict[str, ChannelCommandProcessor], LoggerMixin):
         """Reade events from a specific environment."""
 
         with self.valid_root.joinpath(env, path).open("rb") as path_fd:
+            # Don't continue a stream that wasn't completely read before.
+            self[env].env.channels.reset_events()
             yield from self[env].env.parse_event_stream(path_fd)
 
     def export(self, env: str) -> Path:
diff --git a/runtimepy/channel/registry.py b/runtimepy/channel/registry.py
index d158445..d11212c 100644
--- a/runtimepy/channel/registry.py
+++ b/runtimepy/channel/registry.py
@@ -81,6 +81,11 @@ class ChannelRegistry(_Registry[_Channel[_Any]]):
 
         super().init(data)
         self.event_header = PrimitiveEventHeader.instance()
+        self.reset_events()
+
+    def reset_events(self) -> None:
+        """Discard event data that wasn't parsed yet."""
+
         self.header_ready = False
         self.event_fifo = ByteFifo()
 
-- 
2.43.0


From 88abb15ca43a2d28e9a0fa3eed164620e3b72d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:52 +0000
Subject: [PATCH 115/117] fix: exit with an error when a 'tftp' command fails,
 not when it succeeds

---
 runtimepy/commands/tftp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtimepy/commands/tftp.py b/runtimepy/commands/tftp.py
index faee900..d000958 100644
--- a/runtimepy/commands/tftp.py
+++ b/runtimepy/commands/tftp.py
@@ -42,10 +42,13 @@ def tftp_cmd(args: argparse.Namespace) -> int:
     else:
         task = tftp_write(addr, args.our_file, args.their_file, **kwargs)
 
-    return run_handle_stop(
+    result = run_handle_stop(
         stop_sig, task, enable_uvloop=not getattr(args, "no_uvloop", False)
     )
 
+    # An exit code of zero means that the transfer succeeded.
+    return 0 if result else 1
+
 
 def add_tftp_cmd(parser: argparse.ArgumentParser) -> CommandFunction:
     """Add tftp-command arguments to its parser."""
-- 
2.43.0


From 6b5f76e9d0c867ea07e77e3ba25e4d723492df0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:21 +0000
Subject: [PATCH 116/117] fix: stop repeating TFTP messages when a transfer is
 cancelled

---
 runtimepy/net/udp/tftp/__init__.py |  2 +-
 runtimepy/net/udp/tftp/endpoint.py |  3 +--
 runtimepy/net/udp/tftp/io.py       | 23 ++++++++++++++++++++++-
 3 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/runtimepy/net/udp/tftp/__init__.py b/runtimepy/net/udp/tftp/__init__.py
index 054d487..7d506db 100644
--- a/runtimepy/net/udp/tftp/__init__.py
+++ b/runtimepy/net/udp/tftp/__init__.py
@@ -10,7 +10,6 @@ from pathlib import Path
 from typing import Any, AsyncIterator
 
 # third-party
-from vcorelib.asyncio.poll import repeat_until
 from vcorelib.paths.context import PossiblePath, as_path, tempfile
 from vcorelib.paths.hashing import file_md5_hex
 from vcorelib.paths.info import FileInfo
@@ -24,6 +23,7 @@ from runtimepy.net.udp.tftp.base import (
     TftpErrorHandler,
 )
 from runtimepy.net.udp.tftp.enums import DEFAULT_MODE
+from runtimepy.net.udp.tftp.io import repeat_until
 from runtimepy.net.util import IpHostTuplelike
 
 
diff --git a/runtimepy/net/udp/tftp/endpoint.py b/runtimepy/net/udp/tftp/endpoint.py
index cbabec8..71b30b7 100644
--- a/runtimepy/net/udp/tftp/endpoint.py
+++ b/runtimepy/net/udp/tftp/endpoint.py
@@ -11,7 +11,6 @@ from pathlib import Path
 from typing import BinaryIO, Callable, Coroutine, Optional, Union
 
 # third-party
-from vcorelib.asyncio.poll import repeat_until
 from vcorelib.logging import LoggerMixin, LoggerType
 from vcorelib.math import RateLimiter
 from vcorelib.paths.info import FileInfo
@@ -19,7 +18,7 @@ from vcorelib.paths.info import FileInfo
 # internal
 from runtimepy.net import IpHost
 from runtimepy.net.udp.tftp.enums import TftpErrorCode
-from runtimepy.net.udp.tftp.io import tftp_chunks
+from runtimepy.net.udp.tftp.io import repeat_until, tftp_chunks
 from runtimepy.primitives import Double
 
 TftpDataSender = Callable[[int, bytes, Union[IpHost, tuple[str, int]]], None]
diff --git a/runtimepy/net/udp/tftp/io.py b/runtimepy/net/udp/tftp/io.py
index 2cb78fb..508e694 100644
--- a/runtimepy/net/udp/tftp/io.py
+++ b/runtimepy/net/udp/tftp/io.py
@@ -3,8 +3,29 @@ A module implementing I/O utilities related to tftp transactions.
 """
 
 # built-in
+import asyncio
 from pathlib import Path
-from typing import Iterator
+from typing import Awaitable, Callable, Iterator, Union
+
+# third-party
+from vcorelib.asyncio.poll import repeat_until as _repeat_until
+
+
+async def repeat_until(
+    task: Callable[[], Union[None, Awaitable[None]]],
+    event: asyncio.Event,
+    period: float,
+    timeout: float,
+) -> bool:
+    """
+    Repeat a task until the provided event is set. The task isn't repeated any
+    more when this gets cancelled.
+    """
+
+    try:
+        return await _repeat_until(task, event, period, timeout)
+    finally:
+        event.set()
 
 
 def tftp_chunks(
-- 
2.43.0


From 5e9ebc2ef3af7c4e66d153ff130f02516509f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:47:07 +0000
Subject: [PATCH 117/117] fix: sample enumeration channels with values that
 aren't items

---
 runtimepy/channel/environment/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtimepy/channel/environment/base.py b/runtimepy/channel/environment/base.py
index 9bf3df5..a1f28a3 100644
--- a/runtimepy/channel/environment/base.py
+++ b/runtimepy/channel/environment/base.py
@@ -394,7 +394,7 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
         timeout: float,
         count: int = -1,
         current: bool = True,
-    ) -> _AsyncIterator[tuple[str, int]]:
+    ) -> _AsyncIterator[tuple[str | int, int]]:
         """Sample an enumeration channel."""
 
         chan, enum = self[key]
@@ -403,7 +403,9 @@ class BaseChannelEnvironment(_NamespaceMixin, FinalizeMixin):
         async for sample in sample_for(
             _cast(_IntChannel, chan).raw, timeout, count=count, current=current
         ):
-            yield enum.get_str(sample[0]), sample[1]
+            # Not every value needs to be an item of the enumeration.
+            item = enum.as_str(sample[0])
+            yield sample[0] if item is None else item, sample[1]
 
     def get_float(self, key: _RegistryKey) -> _FloatChannel:
         """Get a floating-point channel."""
-- 
2.43.0

