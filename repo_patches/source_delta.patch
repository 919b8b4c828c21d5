From e54ecab813645b84e7761309ddfcef9bc6428562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:10 +0000
Subject: [PATCH 01/60] fix: build de-serializers per type object and options,
 share them only when complete

Cached de-serializers were keyed by module and class name, ignored the options of
the call, were visible to other threads while under construction, and remained in
the cache half-built when building one of their dependencies failed.
---
 strong_typing/deserializer.py | 37 ++++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 16a0d69..21a80e5 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -15,6 +15,7 @@ import inspect
 import ipaddress
 import re
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -823,19 +824,33 @@ def create_deserializer(
         if isinstance(typ, type):
             context = sys.modules[typ.__module__]
 
-    if options is None:
-        options = DeserializerOptions()
+    # take a snapshot of options to protect cached de-serializers from changes made by the caller
+    options = dataclasses.replace(options) if options is not None else DeserializerOptions()
+
+    # share de-serializers with other calls only when all of their dependencies have been created successfully
+    outer_pending = getattr(_LOCAL, "pending", None)
+    pending: dict[tuple[Any, Any, bool], Deserializer] = {}
+    _LOCAL.pending = pending
+    try:
+        deserializer = _get_deserializer(typ, context, options)
+    finally:
+        _LOCAL.pending = outer_pending
+    _CACHE.update((key, value) for key, value in pending.items() if isinstance(key[0], type))
+    return deserializer
 
-    return _get_deserializer(typ, context, options)
 
+# completely built de-serializers for types, available to all threads
+_CACHE: dict[tuple[Any, Any, bool], Deserializer] = {}
 
-_CACHE: dict[tuple[str, str], Deserializer] = {}
+# de-serializers under construction, available to the thread that constructs them
+_LOCAL = threading.local()
 
 
 def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: DeserializerOptions) -> Deserializer:
     "Creates or re-uses a de-serializer engine to parse an object obtained from a JSON string."
 
-    cache_key = None
+    cache_key: Optional[tuple[Any, Any, bool]] = None
+    pending: dict[tuple[Any, Any, bool], Deserializer] = _LOCAL.pending
 
     if isinstance(typ, (str, typing.ForwardRef)):
         if context is None:
@@ -843,25 +858,25 @@ def _get_deserializer(typ: TypeLike, context: Optional[ModuleType], options: Des
 
         if isinstance(typ, str):
             if hasattr(context, typ):
-                cache_key = (context.__name__, typ)
+                cache_key = (context, typ, options.skip_unassigned)
         elif isinstance(typ, typing.ForwardRef):
             if hasattr(context, typ.__forward_arg__):
-                cache_key = (context.__name__, typ.__forward_arg__)
+                cache_key = (context, typ.__forward_arg__, options.skip_unassigned)
 
         typ = evaluate_type(typ, context)
 
     typ = unwrap_annotated_type(typ) if is_type_annotated(typ) else typ
 
     if isinstance(typ, type) and typing.get_origin(typ) is None:
-        cache_key = (typ.__module__, typ.__name__)
+        cache_key = (typ, typ.__name__, options.skip_unassigned)
 
     if cache_key is not None:
-        deserializer = _CACHE.get(cache_key)
+        deserializer = _CACHE.get(cache_key) or pending.get(cache_key)
         if deserializer is None:
             deserializer = _create_deserializer(typ, options)
 
-            # store de-serializer immediately in cache to avoid stack overflow for recursive types
-            _CACHE[cache_key] = deserializer
+            # store de-serializer immediately to avoid stack overflow for recursive types
+            pending[cache_key] = deserializer
 
             if isinstance(typ, type):
                 # use type's own module as context for evaluating member types
-- 
2.43.0


From 5f7ccd60b2b4ba16f41078291673b380b898ff28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:32 +0000
Subject: [PATCH 02/60] fix: try the next union member when a member refuses
 the value of the data

---
 strong_typing/deserializer.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 21a80e5..6ba2449 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -417,10 +417,20 @@ class UnionDeserializer(RecursiveDeserializer):
             # iterate over potential types of discriminated union
             try:
                 return member_parser.parse(data)
-            except (JsonKeyError, JsonTypeError):
+            except (
+                JsonKeyError,
+                JsonTypeError,
+                JsonValueError,
+                KeyError,
+                TypeError,
+                ValueError,
+                OverflowError,
+            ):
                 # indicates a required field is missing from JSON dict
                 # -OR-
                 # the data cannot be cast to the expected type, i.e. we don't have the type that we are looking for
+                # -OR-
+                # the data has the expected JSON type but its value is malformed or out of range
                 continue
 
         type_names = ", ".join(python_type_to_str(member_type) for member_type in self.member_types)
-- 
2.43.0


From d3f7973f89a590634ff8a3c63808689c93aa19cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:37 +0000
Subject: [PATCH 03/60] fix: resolve tagged unions by the JSON name and value
 of the tag

---
 strong_typing/deserializer.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 6ba2449..5d23343 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -463,6 +463,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
 
     member_types: tuple[type, ...]
     disambiguating_properties: set[str]
+    disambiguating_names: list[str]
     member_parsers: dict[tuple[str, Any], Deserializer]
 
     def __init__(self, member_types: tuple[type, ...], options: DeserializerOptions) -> None:
@@ -473,12 +474,16 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
     def build(self, context: Optional[ModuleType]) -> None:
         self.member_parsers = {}
         for member_type in self.member_types:
-            for property_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, property_name)
+            for field_name in self.disambiguating_properties:
+                literal_type = get_class_property(member_type, field_name)
                 if not literal_type:
                     continue
 
+                # tags are looked up in JSON data by the name and value with which they are serialized
+                property_name = python_field_to_json_property(field_name, literal_type)
                 for literal_value in unwrap_literal_values(literal_type):
+                    if isinstance(literal_value, enum.Enum):
+                        literal_value = literal_value.value
                     tpl = (property_name, literal_value)
                     if tpl in self.member_parsers:
                         raise JsonTypeError(
@@ -488,6 +493,8 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
 
                     self.member_parsers[tpl] = self.get_deserializer(member_type, context)
 
+        self.disambiguating_names = list(dict.fromkeys(property_name for property_name, _ in self.member_parsers))
+
     @property
     def union_type(self) -> str:
         type_names = ", ".join(python_type_to_str(member_type) for member_type in self.member_types)
@@ -499,12 +506,14 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
                 f"tagged union type `{self.union_type}` expects JSON `object` data but instead received: {data}"
             )
 
-        for property_name in self.disambiguating_properties:
+        for property_name in self.disambiguating_names:
             disambiguating_value = data.get(property_name)
             if disambiguating_value is None:
                 continue
 
-            member_parser = self.member_parsers.get((property_name, disambiguating_value))
+            member_parser = None
+            if not isinstance(disambiguating_value, (dict, list)):
+                member_parser = self.member_parsers.get((property_name, disambiguating_value))
             if member_parser is None:
                 raise JsonTypeError(
                     f"disambiguating property value is invalid for tagged union type `{self.union_type}`: {data}"
-- 
2.43.0


From 7f931a062ea42b43431fb1e38da44b227ac08e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:19 +0000
Subject: [PATCH 04/60] fix: read named tuples with the property names,
 optional fields and defaults they are written with

---
 strong_typing/deserializer.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 5d23343..d0ef939 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -718,14 +718,26 @@ class NamedTupleDeserializer(ClassDeserializer[NamedTuple]):
     "De-serializes a named tuple from a JSON `object`."
 
     def build(self, context: Optional[ModuleType]) -> None:
-        property_parsers: list[FieldDeserializer] = [
-            RequiredFieldDeserializer(
-                field_name,
-                field_name,
-                self.get_deserializer(field_type, context),
-            )
-            for field_name, field_type in get_resolved_hints(self.class_type).items()
-        ]
+        property_parsers: list[FieldDeserializer] = []
+        field_defaults: dict[str, Any] = getattr(self.class_type, "_field_defaults", {})
+        for field_name, field_type in get_resolved_hints(self.class_type).items():
+            property_name = python_field_to_json_property(field_name, field_type)
+
+            is_optional = is_type_optional(field_type)
+            required_type = unwrap_optional_type(field_type) if is_optional else field_type
+            parser = self.get_deserializer(required_type, context)
+
+            if field_name in field_defaults:
+                field_parser: FieldDeserializer = DefaultFieldDeserializer(
+                    property_name, field_name, parser, field_defaults[field_name]
+                )
+            elif is_optional:
+                field_parser = OptionalFieldDeserializer(property_name, field_name, parser)
+            else:
+                field_parser = RequiredFieldDeserializer(property_name, field_name, parser)
+
+            property_parsers.append(field_parser)
+
         super().assign(property_parsers)
 
     def create(self, **field_values: Any) -> NamedTuple:
-- 
2.43.0


From 9a5cf08144e87005a529357bdcf08a57cc0cb710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:25 +0000
Subject: [PATCH 05/60] fix: reject JSON boolean where a number is expected

---
 strong_typing/deserializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index d0ef939..6c70a2b 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -118,7 +118,7 @@ class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
     def parse(self, data: JsonType) -> int:
-        if not isinstance(data, int):
+        if not isinstance(data, int) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects integer data as JSON `number` but instead received: {data}")
         return int(data)
 
@@ -127,7 +127,7 @@ class FloatDeserializer(Deserializer[float]):
     "Parses JSON `number` values into Python `float` type."
 
     def parse(self, data: JsonType) -> float:
-        if not isinstance(data, float) and not isinstance(data, int):
+        if not isinstance(data, (float, int)) or isinstance(data, bool):
             raise JsonTypeError(f"`int` type expects data as JSON `number` but instead received: {data}")
         return float(data)
 
-- 
2.43.0


From 7f243dd92aa9d9ed6e537a74e2c553bc98508bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:00 +0000
Subject: [PATCH 06/60] fix: write negative durations with a leading sign,
 refuse durations without components

---
 strong_typing/deserializer.py | 13 +++++++------
 strong_typing/serializer.py   | 19 ++++++++++++++-----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 6c70a2b..701f56a 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -199,14 +199,14 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
             raise JsonTypeError(f"`timedelta` type expects JSON `string` data but instead received: {data}")
 
         pattern = re.compile(
-            r"^P"  # starts with 'P'
+            r"^(?P<sign>-?)P(?=[0-9T])"  # starts with 'P', or '-P' for a negative duration
             r"(?:(?P<weeks>\d+)W)?"  # optional weeks
             r"(?:(?P<days>\d+)D)?"  # optional days
-            r"(?:T"  # start of time part
+            r"(?:T(?=[0-9])"  # start of time part
             r"(?:(?P<hours>\d+)H)?"  # optional hours
             r"(?:(?P<minutes>\d+)M)?"  # optional minutes
             r"(?:(?P<seconds>\d+)(?:\.(?P<fractional>\d{1,9}))?S)?"  # optional seconds (integer and fractional part)
-            r")?$",  # end of time part
+            r")?\Z",  # end of time part
             flags=re.ASCII,
         )
 
@@ -232,10 +232,11 @@ class TimeDeltaDeserializer(Deserializer[datetime.timedelta]):
         if nanoseconds % 1000 != 0:  # timedelta type supports microsecond precision only
             raise JsonValueError(f"`timedelta` type supports microsecond precision only but received: {data}")
 
+        sign = -1 if parts["sign"] else 1
         return datetime.timedelta(
-            days=7 * weeks + days,
-            seconds=3600 * hours + 60 * minutes + seconds,
-            microseconds=nanoseconds // 1000,
+            days=sign * (7 * weeks + days),
+            seconds=sign * (3600 * hours + 60 * minutes + seconds),
+            microseconds=sign * (nanoseconds // 1000),
         )
 
 
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 8b14156..c18a7de 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -102,18 +102,27 @@ class TimeSerializer(Serializer[datetime.time]):
 
 class TimeDeltaSerializer(Serializer[datetime.timedelta]):
     def generate(self, obj: datetime.timedelta) -> str:
-        if obj.days != 0:
-            day_component = f"{obj.days}D"
+        days, seconds, microseconds = obj.days, obj.seconds, obj.microseconds
+
+        # a negative `timedelta` has a negative number of days but a non-negative number of seconds and microseconds
+        sign = ""
+        if days < 0:
+            sign = "-"
+            total_seconds, microseconds = divmod(-(microseconds + 1_000_000 * (seconds + 86400 * days)), 1_000_000)
+            days, seconds = divmod(total_seconds, 86400)
+
+        if days != 0:
+            day_component = f"{days}D"
         else:
             day_component = ""
 
-        if obj.seconds != 0 or obj.microseconds != 0:
-            time_component = self.iso8601_time_duration(obj.seconds, obj.microseconds)
+        if seconds != 0 or microseconds != 0:
+            time_component = self.iso8601_time_duration(seconds, microseconds)
         else:
             time_component = ""
 
         if day_component or time_component:
-            return f"P{day_component}{time_component}"
+            return f"{sign}P{day_component}{time_component}"
         else:
             return "PT0S"
 
-- 
2.43.0


From 1b9cb196a368c68787108d24477068998ace115d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:31 +0000
Subject: [PATCH 07/60] fix: create serializers for types that refer to
 themselves through containers

---
 strong_typing/serializer.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index c18a7de..f3bb7a3 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -14,6 +14,7 @@ import functools
 import inspect
 import ipaddress
 import sys
+import threading
 import types
 import typing
 import uuid
@@ -261,6 +262,18 @@ class TypedTupleSerializer(Serializer[tuple]):
         return [item_generator.generate(item) for item_generator, item in zip(self.item_generators, obj)]
 
 
+class DeferredSerializer(Serializer):
+    "Refers to the serializer of a (recursive) type whose serializer is still being created."
+
+    class_type: type
+
+    def __init__(self, class_type: type) -> None:
+        self.class_type = class_type
+
+    def generate(self, obj: Any) -> JsonType:
+        return _fetch_serializer(self.class_type).generate(obj)
+
+
 class CustomSerializer(Serializer):
     converter: Callable[[object], JsonType]
 
@@ -423,16 +436,29 @@ def _get_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
         typ = evaluate_type(typ, context)
 
     if isinstance(typ, type):
+        # avoid stack overflow for recursive types
+        if typ in getattr(_LOCAL, "pending", ()):
+            return DeferredSerializer(typ)
+
         return _fetch_serializer(typ)
     else:
         # special forms are not always hashable
         return _create_serializer(typ, context)
 
 
+# types whose serializer is being created by the thread
+_LOCAL = threading.local()
+
+
 @functools.lru_cache(maxsize=None)
 def _fetch_serializer(typ: type) -> Serializer:
     context = sys.modules[typ.__module__]
-    return _create_serializer(typ, context)
+    pending: tuple[type, ...] = getattr(_LOCAL, "pending", ())
+    _LOCAL.pending = (*pending, typ)
+    try:
+        return _create_serializer(typ, context)
+    finally:
+        _LOCAL.pending = pending
 
 
 def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializer:
-- 
2.43.0


From 0104ea6cc0928ca69c51abe3887d41ab0cca4e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:38 +0000
Subject: [PATCH 08/60] fix: write properties under their alias when
 annotations are postponed

---
 strong_typing/serializer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index f3bb7a3..cc035cd 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -312,13 +312,20 @@ class TypedClassSerializer(Serializer[T]):
     property_generators: list[FieldSerializer]
 
     def __init__(self, class_type: type[T], context: Optional[ModuleType]) -> None:
+        class_properties = list(get_class_properties(class_type))
+
+        # with postponed evaluation, the property name may be given by an alias inside the annotation string
+        if any(isinstance(field_type, str) for _, field_type in class_properties):
+            resolved_hints = get_resolved_hints(class_type)
+            class_properties = [(field_name, resolved_hints[field_name]) for field_name, _ in class_properties]
+
         self.property_generators = [
             FieldSerializer(
                 field_name,
                 python_field_to_json_property(field_name, field_type),
                 _get_serializer(field_type, context),
             )
-            for field_name, field_type in get_class_properties(class_type)
+            for field_name, field_type in class_properties
         ]
 
     def generate(self, obj: T) -> dict[str, JsonType]:
-- 
2.43.0


From 68c2fdf7a25ed8e754223e2406141ce01c2bb12c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:17 +0000
Subject: [PATCH 09/60] fix: name properties in the schema as they are named in
 JSON

---
 strong_typing/schema.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 81f8930..f9d5a4f 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -19,12 +19,11 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import Alias, IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
-    get_annotation,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -33,6 +32,7 @@ from .inspection import (
     unwrap_optional_type,
     unwrap_union_types,
 )
+from .mapping import python_field_to_json_property
 from .name import python_type_to_name
 from .serialization import object_to_json
 
@@ -432,12 +432,8 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
-            # rename property if an alias name is specified
-            alias = get_annotation(property_type, Alias)
-            if alias:
-                output_name = alias.name
-            else:
-                output_name = property_name
+            # use the name with which the property is serialized
+            output_name = python_field_to_json_property(property_name, property_type)
 
             if is_type_optional(property_type):
                 optional_type: type = unwrap_optional_type(property_type)
-- 
2.43.0


From 1c3e67f52ebf35e91bc69e037acaf6261b456954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:22 +0000
Subject: [PATCH 10/60] fix: generate schema for IP addresses

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index f9d5a4f..fb3e932 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -10,6 +10,7 @@ import decimal
 import enum
 import functools
 import inspect
+import ipaddress
 import json
 import typing
 import uuid
@@ -260,6 +261,12 @@ class JsonSchemaGenerator:
         elif typ is uuid.UUID:
             # f81d4fae-7dec-11d0-a765-00a0c91e6bf6
             return {"type": "string", "format": "uuid"}
+        elif typ is ipaddress.IPv4Address:
+            # 192.0.2.1
+            return {"type": "string", "format": "ipv4"}
+        elif typ is ipaddress.IPv6Address:
+            # 2001:db8::1
+            return {"type": "string", "format": "ipv6"}
         elif typ is Any:
             return {
                 "oneOf": [
-- 
2.43.0


From e82311c5c22a8b0ee9b85ab9a318c4c3a5d5c910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:29 +0000
Subject: [PATCH 11/60] fix: generate schema for literal types with several
 values

---
 strong_typing/schema.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index fb3e932..3c676e6 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -423,9 +423,17 @@ class JsonSchemaGenerator:
                 "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
         elif origin_type is Literal:
-            (literal_value,) = typing.get_args(typ)  # unpack value of literal type
-            schema = self.type_to_schema(type(literal_value))
-            schema["const"] = literal_value
+            literal_values = typing.get_args(typ)  # unpack values of literal type
+            literal_types = list(dict.fromkeys(type(value) for value in literal_values))
+            if len(literal_types) != 1:
+                raise ValueError(
+                    f"literals must have a consistent value type but several types found: {literal_types}"
+                )
+            schema = self.type_to_schema(literal_types[0])
+            if len(literal_values) == 1:
+                schema["const"] = object_to_json(literal_values[0])
+            else:
+                schema["enum"] = [object_to_json(value) for value in literal_values]
             return schema
         elif origin_type is type:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
-- 
2.43.0


From dd7c89e1fb3afa286cfb4ef6d015aa2498c9cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:35 +0000
Subject: [PATCH 12/60] fix: generate schema for optional types other than
 class members

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 3c676e6..a06129d 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -375,7 +375,7 @@ class JsonSchemaGenerator:
                     enum_schema.update(docstring_to_schema(typ))
                 return enum_schema
 
-        if is_type_union(typ):
+        if is_type_union(typ) or is_type_optional(typ):
             return {"oneOf": [self.type_to_schema(union_type) for union_type in unwrap_union_types(typ)]}
 
         origin_type = typing.get_origin(typ)
-- 
2.43.0


From f399147e8104cbad1df32a58395a86439fda4638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:40 +0000
Subject: [PATCH 13/60] fix: escape enumeration values in property name pattern

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index a06129d..6ff75ec 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -12,6 +12,7 @@ import functools
 import inspect
 import ipaddress
 import json
+import re
 import typing
 import uuid
 from copy import deepcopy
@@ -393,7 +394,7 @@ class JsonSchemaGenerator:
                 enum_values = [str(e.value) for e in key_type]
                 if len(enum_values) > OBJECT_ENUM_EXPANSION_LIMIT:
                     dict_schema = {
-                        "propertyNames": {"pattern": "^(" + "|".join(enum_values) + ")$"},
+                        "propertyNames": {"pattern": "^(" + "|".join(re.escape(value) for value in enum_values) + ")$"},
                         "additionalProperties": value_schema,
                     }
                 else:
-- 
2.43.0


From 4f670648ab2e745ac0283f76b511bff11630fa85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 14/60] fix: do not share registered examples with generated
 schemas

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 6ff75ec..c85fe41 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -517,7 +517,7 @@ class JsonSchemaGenerator:
 
         # add example (if present)
         if self.options.use_examples and entry.examples:
-            type_schema["examples"] = entry.examples
+            type_schema["examples"] = deepcopy(entry.examples)
 
         return type_schema
 
-- 
2.43.0


From c7325673d7a25b0f3f2907f4c771df9d4787f3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:51 +0000
Subject: [PATCH 15/60] fix: check formats according to the schema standard in
 use when validating objects

---
 strong_typing/schema.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index c85fe41..4968b2a 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -613,7 +613,8 @@ def validate_object(data_type: TypeLike, json_dict: JsonType) -> None:
     """
 
     schema_dict = classdef_to_schema(data_type)
-    jsonschema.validate(json_dict, schema_dict, format_checker=jsonschema.FormatChecker())
+    validator = Validator.Latest.value
+    jsonschema.validate(json_dict, schema_dict, cls=validator, format_checker=validator.FORMAT_CHECKER)
 
 
 def print_schema(data_type: type) -> None:
-- 
2.43.0


From 36bcd4f9ee656c3860c9b9a348896df95c9e0330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:53 +0000
Subject: [PATCH 16/60] fix: keep registered schema and examples when the
 caller modifies them

---
 strong_typing/schema.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 4968b2a..3d80b83 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -157,7 +157,7 @@ class TypeCatalog:
         if data_type in self._by_type:
             raise ValueError(f"type {data_type} is already registered in the catalog")
 
-        entry = TypeCatalogEntry(schema, identifier, examples)
+        entry = TypeCatalogEntry(deepcopy(schema), identifier, deepcopy(examples))
         self._by_type[data_type] = entry
         self._by_name[identifier] = entry
 
-- 
2.43.0


From bfbedf8d0b191108a989a7c856201c402f7d56c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:57 +0000
Subject: [PATCH 17/60] fix: define every type that a generated schema refers
 to

Forward references and postponed annotations were evaluated in the wrong module,
which gave references without definitions, or an error.
---
 strong_typing/schema.py | 150 ++++++++++++++++++++++++++++++++--------
 1 file changed, 123 insertions(+), 27 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 3d80b83..c225995 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -13,9 +13,11 @@ import inspect
 import ipaddress
 import json
 import re
+import sys
 import typing
 import uuid
 from copy import deepcopy
+from types import ModuleType
 from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, overload
 
 import jsonschema
@@ -26,6 +28,7 @@ from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
     enum_value_types,
+    evaluate_type,
     get_class_properties,
     is_type_enum,
     is_type_like,
@@ -105,18 +108,13 @@ def id_from_ref(data_type: Union[typing.ForwardRef, str, type]) -> str:
         return data_type.__name__
 
 
-def type_from_ref(data_type: Union[typing.ForwardRef, str, type]) -> tuple[str, type]:
-    "Creates a type from a forward reference."
+def get_property_module(data_type: type, property_name: str) -> ModuleType:
+    "Returns the module of the class in which a (possibly inherited) property is declared."
 
-    if isinstance(data_type, typing.ForwardRef):
-        forward_type: typing.ForwardRef = data_type
-        true_type = eval(forward_type.__forward_code__)
-        return forward_type.__forward_arg__, true_type
-    elif isinstance(data_type, str):
-        true_type = eval(data_type)
-        return data_type, true_type
-    else:
-        return data_type.__name__, data_type
+    for base in inspect.getmro(data_type):
+        if property_name in base.__dict__.get("__annotations__", {}):
+            return sys.modules[base.__module__]
+    return sys.modules[data_type.__module__]
 
 
 @dataclasses.dataclass
@@ -169,6 +167,14 @@ class TypeCatalog:
         else:
             return self._by_type[data_type]
 
+    def find(self, identifier: str) -> Optional[TypeLike]:
+        "Looks up a registered type by its identifier."
+
+        for data_type, entry in self._by_type.items():
+            if entry.identifier == identifier:
+                return data_type
+        return None
+
     def __repr__(self) -> str:
         return f"{type(self).__name__}({repr(self._by_name)})"
 
@@ -186,6 +192,9 @@ class JsonSchemaGenerator:
 
     type_catalog: ClassVar[TypeCatalog] = TypeCatalog()
     types_used: dict[str, TypeLike]
+    types_expanding: list[TypeLike]
+    context: Optional[ModuleType]
+    contexts: dict[str, Optional[ModuleType]]
     options: SchemaOptions
 
     def __init__(self, options: Optional[SchemaOptions] = None):
@@ -194,6 +203,9 @@ class JsonSchemaGenerator:
         else:
             self.options = options
         self.types_used = {}
+        self.types_expanding = []
+        self.context = None
+        self.contexts = {}
 
     @functools.singledispatchmethod
     def _metadata_to_schema(self, arg: object) -> Schema:
@@ -287,6 +299,56 @@ class JsonSchemaGenerator:
             # not a simple type
             return None
 
+    def _resolve_reference(self, reference: Union[typing.ForwardRef, str]) -> Optional[TypeLike]:
+        """
+        Finds the type that a forward reference stands for.
+
+        :returns: A type, or `None` if the name is not known.
+        """
+
+        identifier = id_from_ref(reference)
+        if self.context is not None:
+            try:
+                return typing.cast(TypeLike, evaluate_type(identifier, self.context))
+            except (AttributeError, NameError):
+                pass
+
+        # the name may refer to a local class that is not visible in module context
+        for expanding_type in self.types_expanding:
+            if isinstance(expanding_type, type) and expanding_type.__name__ == identifier:
+                return expanding_type
+
+        registered_type = JsonSchemaGenerator.type_catalog.find(identifier)
+        if registered_type is not None:
+            return registered_type
+
+        try:
+            return typing.cast(TypeLike, evaluate_type(identifier, sys.modules[__name__]))
+        except (AttributeError, NameError):
+            return None
+
+    def _expand_type(self, data_type: TypeLike, context: Optional[ModuleType]) -> Schema:
+        "Returns the JSON schema for a type such that nested occurrences of the same type are written as references."
+
+        if isinstance(data_type, type):
+            return self.type_to_schema(data_type, force_expand=True)
+
+        outer_context = self.context
+        self.context = context
+        self.types_expanding.append(data_type)
+        try:
+            return self.type_to_schema(data_type, force_expand=True)
+        finally:
+            self.types_expanding.pop()
+            self.context = outer_context
+
+    def _type_to_ref(self, identifier: str, data_type: TypeLike) -> Schema:
+        "Returns a reference to a type definition, and marks the type as used."
+
+        self.types_used.setdefault(identifier, data_type)
+        self.contexts.setdefault(identifier, self.context)
+        return {"$ref": f"{self.options.definitions_path}{identifier}"}
+
     def type_to_schema(self, data_type: TypeLike, force_expand: bool = False) -> Schema:
         """
         Returns the JSON schema associated with a type.
@@ -297,6 +359,22 @@ class JsonSchemaGenerator:
         :returns: The JSON schema associated with the type.
         """
 
+        # forward references stand for the type that they refer to
+        if isinstance(data_type, (str, typing.ForwardRef)):
+            identifier = id_from_ref(data_type)
+            resolved_type = self._resolve_reference(data_type)
+            if resolved_type is None:
+                return {"$ref": f"{self.options.definitions_path}{identifier}"}
+
+            # recursive type alias
+            if identifier.isidentifier() and not isinstance(resolved_type, type):
+                if resolved_type not in JsonSchemaGenerator.type_catalog:
+                    if any(resolved_type is expanding_type for expanding_type in self.types_expanding):
+                        return self._type_to_ref(identifier, resolved_type)
+                    return self._expand_type(resolved_type, self.context)
+
+            data_type = resolved_type
+
         # short-circuit for common simple types
         schema = self._simple_type_to_schema(data_type)
         if schema is not None:
@@ -307,8 +385,7 @@ class JsonSchemaGenerator:
         if not force_expand and data_type in type_catalog:
             # user-defined type
             identifier = type_catalog.get(data_type).identifier
-            self.types_used.setdefault(identifier, data_type)
-            return {"$ref": f"{self.options.definitions_path}{identifier}"}
+            return self._type_to_ref(identifier, data_type)
 
         # unwrap annotated types
         metadata = getattr(data_type, "__metadata__", None)
@@ -331,17 +408,7 @@ class JsonSchemaGenerator:
             typ = data_type
 
         if isinstance(typ, typing.ForwardRef) or isinstance(typ, str):
-            if force_expand:
-                identifier, true_type = type_from_ref(typ)
-                return self.type_to_schema(true_type, force_expand=True)
-            else:
-                try:
-                    identifier, true_type = type_from_ref(typ)
-                    self.types_used[identifier] = true_type
-                except NameError:
-                    identifier = id_from_ref(typ)
-
-                return {"$ref": f"{self.options.definitions_path}{identifier}"}
+            return self.type_to_schema(typ, force_expand)
 
         if is_type_enum(typ):
             enum_type: type[enum.Enum] = typ
@@ -440,6 +507,22 @@ class JsonSchemaGenerator:
             (concrete_type,) = typing.get_args(typ)  # unpack single tuple element
             return {"const": self.type_to_schema(concrete_type, force_expand=True)}
 
+        # recursive class type
+        if any(typ is expanding_type for expanding_type in self.types_expanding):
+            return self._type_to_ref(typ.__name__, typ)
+
+        outer_context = self.context
+        self.context = sys.modules[typ.__module__]
+        self.types_expanding.append(typ)
+        try:
+            return self._class_to_schema(typ)
+        finally:
+            self.types_expanding.pop()
+            self.context = outer_context
+
+    def _class_to_schema(self, typ: type) -> Schema:
+        "Returns the JSON schema associated with a class that has properties."
+
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
@@ -448,6 +531,13 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
+            # evaluate property type when annotations are postponed
+            if isinstance(property_type, str):
+                try:
+                    property_type = evaluate_type(property_type, get_property_module(typ, property_name))
+                except (AttributeError, NameError):
+                    pass
+
             # use the name with which the property is serialized
             output_name = python_field_to_json_property(property_name, property_type)
 
@@ -486,7 +576,7 @@ class JsonSchemaGenerator:
 
             properties[output_name] = property_def
 
-        schema = {"type": "object"}
+        schema: Schema = {"type": "object"}
         if len(properties) > 0:
             schema["properties"] = typing.cast(JsonType, properties)
             schema["additionalProperties"] = False
@@ -496,14 +586,19 @@ class JsonSchemaGenerator:
             schema.update(docstring_to_schema(typ))
         return schema
 
-    def _type_to_schema_with_lookup(self, data_type: TypeLike) -> Schema:
+    def _type_to_schema_with_lookup(self, identifier: str, data_type: TypeLike) -> Schema:
         """
         Returns the JSON schema associated with a type that may be registered in the catalog of known types.
 
+        :param identifier: The name by which the type is referenced.
         :param data_type: The type whose JSON schema we seek.
         :returns: The JSON schema associated with the type.
         """
 
+        if data_type not in JsonSchemaGenerator.type_catalog:
+            # recursive type
+            return self._expand_type(data_type, self.contexts.get(identifier))
+
         entry = JsonSchemaGenerator.type_catalog.get(data_type)
         if entry.schema is None:
             type_schema = self.type_to_schema(data_type, force_expand=True)
@@ -535,6 +630,7 @@ class JsonSchemaGenerator:
             raise TypeError(f"expected a type-like object but got: {data_type}")
 
         self.types_used = {}
+        self.contexts = {}
         try:
             type_schema = self.type_to_schema(data_type, force_expand=force_expand)
 
@@ -549,7 +645,7 @@ class JsonSchemaGenerator:
 
                 # expand undefined types, which may lead to additional types to be defined
                 for sub_name, sub_type in types_undefined.items():
-                    types_defined[sub_name] = self._type_to_schema_with_lookup(sub_type)
+                    types_defined[sub_name] = self._type_to_schema_with_lookup(sub_name, sub_type)
 
             type_definitions = dict(sorted(types_defined.items()))
         finally:
-- 
2.43.0


From d1c892a8b611c36f8459bdbc7417451196ca78fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:03 +0000
Subject: [PATCH 18/60] fix: refuse to generate a schema in which one
 definition stands for several types

---
 strong_typing/schema.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index c225995..c0409f2 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -345,7 +345,9 @@ class JsonSchemaGenerator:
     def _type_to_ref(self, identifier: str, data_type: TypeLike) -> Schema:
         "Returns a reference to a type definition, and marks the type as used."
 
-        self.types_used.setdefault(identifier, data_type)
+        used_type = self.types_used.setdefault(identifier, data_type)
+        if used_type is not data_type and used_type != data_type:
+            raise ValueError(f"identifier `{identifier}` stands for several types: {used_type} and {data_type}")
         self.contexts.setdefault(identifier, self.context)
         return {"$ref": f"{self.options.definitions_path}{identifier}"}
 
-- 
2.43.0


From 7142776fe42bc249fa4a0c9c7ad51f1c1778fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:31 +0000
Subject: [PATCH 19/60] fix: sort types with all of their additional
 dependencies, and nothing else

---
 strong_typing/topological.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index 3bb93c7..f5801c5 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -6,7 +6,7 @@ Type-safe data interchange for Python data classes.
 
 from typing import Callable, Iterable, Optional, TypeVar
 
-from .inspection import TypeCollector
+from .inspection import _ROOT, TypeCollector
 
 T = TypeVar("T")
 
@@ -65,20 +65,27 @@ def type_topological_sort(
     :returns: The list of types in topological order.
     """
 
+    types = list(types)
     if not all(isinstance(typ, type) for typ in types):
         raise TypeError("expected a list of types")
 
     collector = TypeCollector()
     collector.traverse_all(types)
+    root_types = collector.graph.pop(_ROOT)
     graph = collector.graph
 
     if dependency_fn:
-        new_types: set[type] = set()
-        for source_type, references in graph.items():
-            dependent_types = dependency_fn(source_type)
-            references.update(dependent_types)
-            new_types.update(dependent_types)
-        for new_type in new_types:
-            graph[new_type] = set()
+        source_types = list(graph)
+        while source_types:
+            source_type = source_types.pop()
+            dependent_types = list(dependency_fn(source_type))
+            graph[source_type].update(dependent_types)
+
+            # additional dependencies may refer to further types, which may have additional dependencies on their own
+            known_types = set(graph)
+            graph[_ROOT] = root_types
+            collector.traverse_all(dependent_types)
+            del graph[_ROOT]
+            source_types.extend(typ for typ in graph if typ not in known_types)
 
     return topological_sort(graph)
-- 
2.43.0


From c2fbc7151b2f6cf34ff2e2b9d060f76741a72b9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:07 +0000
Subject: [PATCH 20/60] fix: check tuple length, new-style unions and annotated
 types in generic instance check

---
 strong_typing/inspection.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27e4508..0e2b756 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -836,6 +836,8 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
         else:
             return False
 
+    typ = unwrap_annotated_type(typ)
+
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
     if origin_type is list:
@@ -862,14 +864,17 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
     elif origin_type is tuple:
         if not isinstance(obj, tuple):
             return False
-        return all(
+        tuple_item_types = typing.get_args(typ)
+        if len(tuple_item_types) == 2 and tuple_item_types[1] is Ellipsis:
+            return all(is_generic_instance(item, tuple_item_types[0]) for item in obj)
+        return len(obj) == len(tuple_item_types) and all(
             is_generic_instance(item, tuple_item_type)
             for tuple_item_type, item in zip(
-                (tuple_item_type for tuple_item_type in typing.get_args(typ)),
+                (tuple_item_type for tuple_item_type in tuple_item_types),
                 (item for item in obj),
             )
         )
-    elif origin_type is Union:
+    elif _is_union_like(typ):
         return any(is_generic_instance(obj, member_type) for member_type in typing.get_args(typ))
     elif isinstance(typ, type):
         return isinstance(obj, typ)
-- 
2.43.0


From ad139668bac2e92f3b3a6492b4e9ab7b50d1b31b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:12 +0000
Subject: [PATCH 21/60] fix: apply recursive predicate to values of literal,
 annotated, new-style union and address types

---
 strong_typing/inspection.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 0e2b756..27bfa33 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -8,11 +8,13 @@ Type-safe data interchange for Python data classes.
 
 import dataclasses
 import datetime
+import decimal
 import enum
 import importlib
 import importlib.machinery
 import importlib.util
 import inspect
+import ipaddress
 import re
 import sys
 import types
@@ -909,6 +911,8 @@ class RecursiveChecker:
         :returns: True if all member properties pass the filter predicate.
         """
 
+        typ = unwrap_annotated_type(typ)
+
         # check for well-known types
         if (
             typ is type(None)
@@ -921,7 +925,10 @@ class RecursiveChecker:
             or typ is datetime.date
             or typ is datetime.time
             or typ is datetime.timedelta
+            or typ is decimal.Decimal
             or typ is uuid.UUID
+            or typ is ipaddress.IPv4Address
+            or typ is ipaddress.IPv6Address
         ):
             return self.pred(typing.cast(type, typ), obj)
 
@@ -955,7 +962,7 @@ class RecursiveChecker:
                     (item for item in obj),
                 )
             )
-        elif origin_type is Union:
+        elif origin_type is Literal or _is_union_like(typ):
             return self.pred(typ, obj)  # type: ignore[arg-type]
 
         if not inspect.isclass(typ):
-- 
2.43.0


From a12cf3e54a81c8141bc924fe6fd3c5d48ed182a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:43 +0000
Subject: [PATCH 22/60] fix: keep objects without declared properties when
 flattening a schema

---
 strong_typing/classdef.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index e129a41..f9611d0 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -397,7 +397,7 @@ class SchemaFlattener:
         target_reqs: list[str] = []
 
         for name, prop in source_props.items():
-            if not isinstance(prop, JsonSchemaObject):
+            if not isinstance(prop, JsonSchemaObject) or not prop.properties:
                 target_props[name] = prop
                 if name in source_reqs:
                     target_reqs.append(name)
-- 
2.43.0


From b1f6b23e9f4c40014cb5aac4763bacd1b418ab72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:48 +0000
Subject: [PATCH 23/60] fix: produce a name for composite types nested in
 composite types when requested

---
 strong_typing/name.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index c52d34c..90b7551 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -240,7 +240,7 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
     if metadata is not None:
         # type is Annotated[T, ...]
         arg = typing.get_args(data_type)[0]
-        return python_type_to_name(arg)
+        return python_type_to_name(arg, force=force)
 
     if force:
         # generic types
@@ -250,34 +250,34 @@ def python_type_to_name(data_type: TypeLike, *, force: bool = False) -> str:
 
             if origin is dict:  # dict[K, V]
                 (key_type, value_type) = data_type_args
-                key_name = python_type_to_name(key_type)
-                value_name = python_type_to_name(value_type)
+                key_name = python_type_to_name(key_type, force=force)
+                value_name = python_type_to_name(value_type, force=force)
                 return f"Dict__{key_name}__{value_name}"
             elif origin is list:  # list[T]
                 (list_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(list_type)
+                item_name = python_type_to_name(list_type, force=force)
                 return f"List__{item_name}"
             elif origin is set:  # set[T]
                 (set_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(set_type)
+                item_name = python_type_to_name(set_type, force=force)
                 return f"Set__{item_name}"
             elif origin is frozenset:  # frozenset[T]
                 (set_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(set_type)
+                item_name = python_type_to_name(set_type, force=force)
                 return f"FrozenSet__{item_name}"
             elif origin is tuple:  # tuple[T]
-                member_names = "__".join(python_type_to_name(member_type) for member_type in data_type_args)
+                member_names = "__".join(python_type_to_name(member_type, force=force) for member_type in data_type_args)
                 return f"Tuple__{member_names}"
             elif origin is type:  # type[T]
                 (type_type,) = data_type_args  # unpack single tuple element
-                item_name = python_type_to_name(type_type)
+                item_name = python_type_to_name(type_type, force=force)
                 return f"Type__{item_name}"
             elif is_type_optional(data_type, strict=True):
-                inner_name = python_type_to_name(unwrap_optional_type(data_type))
+                inner_name = python_type_to_name(unwrap_optional_type(data_type), force=force)
                 return f"Optional__{inner_name}"
             elif is_type_union(data_type):
                 member_types = unwrap_union_types(data_type)
-                member_names = "__".join(python_type_to_name(member_type) for member_type in member_types)
+                member_names = "__".join(python_type_to_name(member_type, force=force) for member_type in member_types)
                 return f"Union__{member_names}"
 
     # named system or user-defined type
-- 
2.43.0


From 23403a56159a9840aa1d617b2e53239f9c53488f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:53 +0000
Subject: [PATCH 24/60] fix: parse docstrings with lines that start with a
 colon but are not entries

---
 strong_typing/docstring.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index 8871b93..b9b7f7f 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -278,7 +278,11 @@ def parse_text(text: str) -> Docstring:
         if not chunk:
             continue
 
-        args_chunk, desc_chunk = chunk.lstrip(":").split(":", 1)
+        args_chunk, separator, desc_chunk = chunk.lstrip(":").partition(":")
+        if not separator:
+            # text starts with a colon but it is not an entry
+            continue
+
         args = args_chunk.split()
         desc = re.sub(r"\s+", " ", desc_chunk.strip())
 
-- 
2.43.0


From 5d5b65deceb7501035fdfdfae9fb43c6c41befde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:24 +0000
Subject: [PATCH 25/60] fix: write type names that denote the type for
 enumeration literals, empty tuples and annotations

---
 strong_typing/name.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 90b7551..7220ca9 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -4,6 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
+import enum
 import sys
 import typing
 from types import ModuleType
@@ -64,6 +65,8 @@ class TypeFormatter:
 
         if self.value_transform is not None:
             return self.value_transform(value)
+        elif isinstance(value, enum.Enum):
+            return f"{type(value).__name__}.{value.name}"
         else:
             return repr(value)
 
@@ -141,6 +144,8 @@ class TypeFormatter:
                 origin_name = "frozenset"
             elif origin is tuple:  # tuple[T, ...]
                 origin_name = "tuple"
+                if not data_type_args:
+                    return "tuple[()]"
             elif origin is type:  # type[T]
                 args = ", ".join(self.python_type_to_str(t) for t in data_type_args)
                 return f"type[{args}]"
@@ -188,7 +193,6 @@ class TypeFormatter:
             arg = typing.get_args(data_type)[0]
 
             # check for auxiliary types with user-defined annotations
-            metaset = set(metatuple)
             for auxiliary_type, auxiliary_name in _auxiliary_types.items():
                 auxiliary_arg = typing.get_args(auxiliary_type)[0]
                 if arg is not auxiliary_arg:
@@ -198,14 +202,15 @@ class TypeFormatter:
                 if auxiliary_metatuple is None:
                     continue
 
-                if metaset.issuperset(auxiliary_metatuple):
+                auxiliary_count = len(auxiliary_metatuple)
+                if metatuple[:auxiliary_count] == auxiliary_metatuple:
                     # type is an auxiliary type with extra annotations
-                    auxiliary_args = ", ".join(repr(m) for m in metatuple if m not in auxiliary_metatuple)
+                    auxiliary_args = ", ".join(repr(m) for m in metatuple[auxiliary_count:])
                     return f"Annotated[{auxiliary_name}, {auxiliary_args}]"
 
             # type is an annotated type
             args = ", ".join(repr(m) for m in metatuple)
-            return f"Annotated[{self.plain_type_to_str(arg)}, {args}]"
+            return f"Annotated[{self.python_type_to_str(arg)}, {args}]"
         else:
             # type is a regular type
             return self.plain_type_to_str(data_type)
-- 
2.43.0


From 324ee2813abc4ce27362522ddb0c9430d445cd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:33 +0000
Subject: [PATCH 26/60] fix: do not modify built-in and library types when
 creating types for schema definitions

---
 strong_typing/classdef.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index f9611d0..d8b997f 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -180,7 +180,6 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
 
-            type_def.type.__module__ = module.__name__
             setattr(module, type_name, type_def.type)
 
     return node_to_typedef(module, class_name, top_node).type
-- 
2.43.0


From 59771b8a03fdff90600e7fd47720a257240ddb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:38 +0000
Subject: [PATCH 27/60] fix: accept schema definitions in any order

---
 strong_typing/classdef.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index d8b997f..dc95024 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -18,6 +18,7 @@ from .core import JsonType, Schema
 from .docstring import Docstring, DocstringParam
 from .inspection import TypeLike
 from .serialization import json_to_object, object_to_json
+from .topological import topological_sort
 
 T = TypeVar("T")
 
@@ -175,7 +176,11 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
 
     top_node = json_to_object(JsonSchemaTopLevelObject, schema)
     if top_node.definitions is not None:
-        for type_name, type_node in top_node.definitions.items():
+        # create types before types that refer to them
+        references = {name: node_references(node) for name, node in top_node.definitions.items()}
+        graph = {name: {ref for ref in refs if ref in references} for name, refs in references.items()}
+        for type_name in topological_sort(graph):
+            type_node = top_node.definitions[type_name]
             type_def = node_to_typedef(module, type_name, type_node)
             if type_def.default is not dataclasses.MISSING:
                 raise TypeError("disallowed: `default` for top-level type definitions")
@@ -185,6 +190,21 @@ def schema_to_type(schema: Schema, *, module: types.ModuleType, class_name: str)
     return node_to_typedef(module, class_name, top_node).type
 
 
+def node_references(node: JsonSchemaNode) -> set[str]:
+    "Returns the names of type definitions that a schema node refers to."
+
+    if isinstance(node, JsonSchemaRef):
+        return {node.ref[len("#/definitions/") :]}
+    elif isinstance(node, JsonSchemaArray):
+        return node_references(node.items)
+    elif isinstance(node, JsonSchemaObject):
+        return set().union(*(node_references(prop) for prop in (node.properties or {}).values()))
+    elif isinstance(node, JsonSchemaOneOf):
+        return set().union(*(node_references(member) for member in node.oneOf))
+    else:
+        return set()
+
+
 @dataclass
 class TypeDef:
     type: TypeLike
-- 
2.43.0


From dd02f90e42704f245673bd8e277fe8934bbf2944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:43 +0000
Subject: [PATCH 28/60] fix: keep all enumeration values of a schema when their
 member names are alike

---
 strong_typing/classdef.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index dc95024..3e4a8ce 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -148,6 +148,20 @@ def enum_safe_name(name: str) -> str:
     return name
 
 
+def enum_unique_names(values: list[str]) -> dict[str, str]:
+    "Assigns a distinct member name to each enumeration value."
+
+    names: dict[str, str] = {}
+    for value in values:
+        name = unique_name = enum_safe_name(value)
+        count = 1
+        while unique_name in names:
+            count += 1
+            unique_name = f"{name}_{count}"
+        names[unique_name] = value
+    return names
+
+
 def enum_values_to_type(
     module: types.ModuleType,
     name: str,
@@ -316,7 +330,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             string_type = enum_values_to_type(
                 module,
                 context,
-                {enum_safe_name(e): e for e in node.enum},
+                enum_unique_names(node.enum),
                 title=node.title,
                 description=node.description,
             )
-- 
2.43.0


From a3b57cd9fe16c98af3dc7b865d5e86275496222e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:48 +0000
Subject: [PATCH 29/60] fix: keep the default of constants when creating types
 from a schema

---
 strong_typing/classdef.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 3e4a8ce..5ed4073 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -243,14 +243,14 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaBoolean):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(type(node.const), node.default))
 
         default = json_to_value(bool, node.default)
         return TypeDef(bool, default)
 
     elif isinstance(node, JsonSchemaInteger):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(type(node.const), node.default))
 
         integer_type: TypeLike
         if node.format == "int16":
@@ -272,7 +272,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaNumber):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(type(node.const), node.default))
 
         number_type: TypeLike
         if node.format == "float32":
@@ -308,7 +308,7 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
 
     elif isinstance(node, JsonSchemaString):
         if node.const is not None:
-            return TypeDef(Literal[node.const], dataclasses.MISSING)
+            return TypeDef(Literal[node.const], json_to_value(type(node.const), node.default))
 
         string_type: TypeLike
         if node.format == "date-time":
-- 
2.43.0


From 0bd06aa17a9fa4be46892c006c9ecd25bdc0aa6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:52 +0000
Subject: [PATCH 30/60] fix: do not take JSON boolean for a numeric enumeration
 value and vice versa

---
 strong_typing/deserializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 701f56a..6b09e78 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -566,7 +566,10 @@ class EnumDeserializer(Deserializer[E]):
         self.enum_type = enum_type
 
     def parse(self, data: JsonType) -> E:
-        return self.enum_type(data)
+        member = self.enum_type(data)
+        if isinstance(data, bool) is not isinstance(member.value, bool):  # Python considers `True` equal to 1
+            raise JsonTypeError(f"enumeration type `{self.enum_type.__name__}` has no value that matches: {data}")
+        return member
 
 
 class CustomDeserializer(Deserializer[T]):
-- 
2.43.0


From 574020a12715b83acad697e418e582986f2f5082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:53 +0000
Subject: [PATCH 31/60] fix: evaluate forward references inside annotated types
 in serializer

---
 strong_typing/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index cc035cd..72b3bfb 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -532,7 +532,7 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return LiteralSerializer(typing.get_args(typ), context)
 
     if is_type_annotated(typ):
-        return create_serializer(unwrap_annotated_type(typ))
+        return _get_serializer(unwrap_annotated_type(typ), context)
 
     # check if object has custom serialization method
     convert_func = getattr(typ, "to_json", None)
-- 
2.43.0


From ee81945a4f2abc3509baf6c8b805c2af730d2315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:21 +0000
Subject: [PATCH 32/60] fix: evaluate inherited properties in the module of the
 class that declares them

---
 strong_typing/inspection.py |  9 +++++++++
 strong_typing/schema.py     | 15 +++++----------
 strong_typing/serializer.py |  3 ++-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 27bfa33..0b347f3 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -576,6 +576,15 @@ def get_class_property(typ: type, name: str) -> Optional[TypeLike]:
     return None
 
 
+def get_class_property_module(typ: type, name: str) -> types.ModuleType:
+    "Returns the module of the class in which a (possibly inherited) property is declared."
+
+    for base in inspect.getmro(typ):
+        if name in base.__dict__.get("__annotations__", {}):
+            return sys.modules[base.__module__]
+    return sys.modules[typ.__module__]
+
+
 @dataclasses.dataclass
 class _ROOT:
     pass
diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index c0409f2..fb6d813 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -30,6 +30,7 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
+    get_class_property_module,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -108,15 +109,6 @@ def id_from_ref(data_type: Union[typing.ForwardRef, str, type]) -> str:
         return data_type.__name__
 
 
-def get_property_module(data_type: type, property_name: str) -> ModuleType:
-    "Returns the module of the class in which a (possibly inherited) property is declared."
-
-    for base in inspect.getmro(data_type):
-        if property_name in base.__dict__.get("__annotations__", {}):
-            return sys.modules[base.__module__]
-    return sys.modules[data_type.__module__]
-
-
 @dataclasses.dataclass
 class TypeCatalogEntry:
     schema: Optional[Schema]
@@ -533,10 +525,13 @@ class JsonSchemaGenerator:
         properties: dict[str, Schema] = {}
         required: list[str] = []
         for property_name, property_type in get_class_properties(typ):
+            # an inherited property refers to types in the module of the class that declares it
+            self.context = get_class_property_module(typ, property_name)
+
             # evaluate property type when annotations are postponed
             if isinstance(property_type, str):
                 try:
-                    property_type = evaluate_type(property_type, get_property_module(typ, property_name))
+                    property_type = evaluate_type(property_type, self.context)
                 except (AttributeError, NameError):
                     pass
 
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 72b3bfb..1b68ed0 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -28,6 +28,7 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
+    get_class_property_module,
     get_resolved_hints,
     is_dataclass_type,
     is_named_tuple_type,
@@ -323,7 +324,7 @@ class TypedClassSerializer(Serializer[T]):
             FieldSerializer(
                 field_name,
                 python_field_to_json_property(field_name, field_type),
-                _get_serializer(field_type, context),
+                _get_serializer(field_type, get_class_property_module(class_type, field_name)),
             )
             for field_name, field_type in class_properties
         ]
-- 
2.43.0


From 54a11f2d957adbc02ee3e5f73b60b2981f09bcd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:27 +0000
Subject: [PATCH 33/60] fix: resolve tagged unions when annotations are
 postponed

---
 strong_typing/deserializer.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 6b09e78..1f81323 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -31,7 +31,6 @@ from .inspection import (
     enum_value_types,
     evaluate_type,
     get_class_properties,
-    get_class_property,
     get_resolved_hints,
     is_dataclass_instance,
     is_dataclass_type,
@@ -438,11 +437,23 @@ class UnionDeserializer(RecursiveDeserializer):
         raise JsonKeyError(f"type `Union[{type_names}]` could not be instantiated from: {data}")
 
 
+def get_evaluated_properties(typ: type) -> dict[str, Any]:
+    "Returns all properties of a class, with types evaluated when annotations are postponed."
+
+    properties: dict[str, Any] = dict(get_class_properties(typ))
+    if any(isinstance(property_type, str) for property_type in properties.values()):
+        resolved_hints = get_resolved_hints(typ)
+        properties = {property_name: resolved_hints[property_name] for property_name in properties}
+    return properties
+
+
 def get_literal_properties(typ: type) -> set[str]:
     "Returns the names of all properties in a class that are of a literal type."
 
     return set(
-        property_name for property_name, property_type in get_class_properties(typ) if is_type_literal(property_type)
+        property_name
+        for property_name, property_type in get_evaluated_properties(typ).items()
+        if is_type_literal(property_type)
     )
 
 
@@ -476,7 +487,7 @@ class TaggedUnionDeserializer(RecursiveDeserializer):
         self.member_parsers = {}
         for member_type in self.member_types:
             for field_name in self.disambiguating_properties:
-                literal_type = get_class_property(member_type, field_name)
+                literal_type = get_evaluated_properties(member_type).get(field_name)
                 if not literal_type:
                     continue
 
-- 
2.43.0


From ecfa28f525b0a7288da387bfa24bb051c61a3d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:35 +0000
Subject: [PATCH 34/60] fix: refuse excess padding in Base64 data

---
 strong_typing/deserializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 1f81323..3103111 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -146,6 +146,8 @@ class BytesDeserializer(Deserializer[bytes]):
     def parse(self, data: JsonType) -> bytes:
         if not isinstance(data, str):
             raise JsonTypeError(f"`bytes` type expects JSON `string` data but instead received: {data}")
+        if len(data) % 4 != 0 or data.endswith("==="):
+            raise JsonValueError(f"`bytes` type expects Base64-encoded data with correct padding but received: {data}")
         return base64.b64decode(data, validate=True)
 
 
-- 
2.43.0


From df60e22979a70e435d90b666c8334de7357e79c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:45 +0000
Subject: [PATCH 35/60] fix: leave out property descriptions when descriptions
 are disabled

---
 strong_typing/schema.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index fb6d813..2d0aa0f 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -520,7 +520,9 @@ class JsonSchemaGenerator:
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
-        property_docstrings = get_class_property_docstrings(typ, self.options.property_description_fun)
+        property_docstrings: dict[str, str] = {}
+        if self.options.use_descriptions:
+            property_docstrings = get_class_property_docstrings(typ, self.options.property_description_fun)
 
         properties: dict[str, Schema] = {}
         required: list[str] = []
-- 
2.43.0


From 155e477b8e0387d24dcb1a6ba4d7fb9e8ae11f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:45 +0000
Subject: [PATCH 36/60] fix: state the exact length of a string in its schema

---
 strong_typing/schema.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 2d0aa0f..7bd065b 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -23,7 +23,7 @@ from typing import Any, Callable, ClassVar, Literal, Optional, TypeVar, Union, o
 import jsonschema
 
 from . import docstring
-from .auxiliary import IntegerRange, MaxLength, MinLength, Precision, get_auxiliary_format
+from .auxiliary import IntegerRange, Length, MaxLength, MinLength, Precision, get_auxiliary_format
 from .core import JsonArray, JsonObject, JsonType, Schema, StrictJsonType
 from .inspection import (
     TypeLike,
@@ -216,6 +216,10 @@ class JsonSchemaGenerator:
             "exclusiveMaximum": (10**arg.integer_digits),
         }
 
+    @_metadata_to_schema.register
+    def _(self, arg: Length) -> Schema:
+        return {"minLength": arg.value, "maxLength": arg.value}
+
     @_metadata_to_schema.register
     def _(self, arg: MinLength) -> Schema:
         return {"minLength": arg.value}
-- 
2.43.0


From 683abc50990f577c1af9f4283834883031d8e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:45 +0000
Subject: [PATCH 37/60] fix: state the defaults of slotted data classes and
 named tuples in their schema

---
 strong_typing/schema.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index 7bd065b..ddc5df6 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -31,6 +31,7 @@ from .inspection import (
     evaluate_type,
     get_class_properties,
     get_class_property_module,
+    is_named_tuple_type,
     is_type_enum,
     is_type_like,
     is_type_optional,
@@ -524,6 +525,12 @@ class JsonSchemaGenerator:
         # dictionary of class attributes
         members = dict(inspect.getmembers(typ, lambda a: not inspect.isroutine(a)))
 
+        # attributes of a data class with slots or a named tuple are descriptors that do not hold the default value
+        if dataclasses.is_dataclass(typ):
+            members.update((field.name, field.default) for field in dataclasses.fields(typ))
+        elif is_named_tuple_type(typ):
+            members.update((name, typ._field_defaults.get(name)) for name in typ._fields)
+
         property_docstrings: dict[str, str] = {}
         if self.options.use_descriptions:
             property_docstrings = get_class_property_docstrings(typ, self.options.property_description_fun)
-- 
2.43.0


From 22a3344d5f28d7884a57bf07f207e18a7ef70f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:45 +0000
Subject: [PATCH 38/60] fix: do not take the generated docstring of a named
 tuple for documentation

---
 strong_typing/docstring.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index b9b7f7f..d1c2c94 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -26,6 +26,7 @@ from .inspection import (
     get_class_properties,
     get_signature,
     is_dataclass_type,
+    is_named_tuple_type,
     is_type_enum,
 )
 
@@ -317,12 +318,12 @@ def parse_text(text: str) -> Docstring:
 
 
 def has_default_docstring(typ: SupportsDoc) -> bool:
-    "Check if class has the auto-generated string assigned by @dataclass."
+    "Check if class has the auto-generated string assigned by @dataclass or NamedTuple."
 
     if not isinstance(typ, type):
         return False
 
-    if is_dataclass_type(typ):
+    if is_dataclass_type(typ) or is_named_tuple_type(typ):
         return typ.__doc__ is not None and re.match(f"^{re.escape(typ.__name__)}[(].*[)]$", typ.__doc__) is not None
 
     if is_type_enum(typ):
-- 
2.43.0


From 74bdb1b5008021be89857b696b755328632c8d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:45 +0000
Subject: [PATCH 39/60] fix: refer to the definition of a registered type when
 it is annotated

---
 strong_typing/schema.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index ddc5df6..cf49012 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -392,6 +392,10 @@ class JsonSchemaGenerator:
             # type is Annotated[T, ...]
             typ = typing.get_args(data_type)[0]
 
+            if not force_expand and typ in type_catalog:
+                # user-defined type with extra annotations
+                return self.type_to_schema(typ)
+
             schema = self._simple_type_to_schema(typ)
             if schema is not None:
                 # recognize well-known auxiliary types
-- 
2.43.0


From aa4c2d7c2208aa475afdf147acb712d2cac50e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:48 +0000
Subject: [PATCH 40/60] fix: generate a valid schema for the empty tuple

---
 strong_typing/schema.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strong_typing/schema.py b/strong_typing/schema.py
index cf49012..924e291 100644
--- a/strong_typing/schema.py
+++ b/strong_typing/schema.py
@@ -487,12 +487,14 @@ class JsonSchemaGenerator:
             }
         elif origin_type is tuple:
             args = typing.get_args(typ)
-            return {
+            tuple_schema: Schema = {
                 "type": "array",
                 "minItems": len(args),
                 "maxItems": len(args),
-                "prefixItems": [self.type_to_schema(member_type) for member_type in args],
             }
+            if args:  # an empty list of items is not permitted
+                tuple_schema["prefixItems"] = [self.type_to_schema(member_type) for member_type in args]
+            return tuple_schema
         elif origin_type is Literal:
             literal_values = typing.get_args(typ)  # unpack values of literal type
             literal_types = list(dict.fromkeys(type(value) for value in literal_values))
-- 
2.43.0


From b87a1196fa1f2dac1d83f0410458c6b671de7c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:23 +0000
Subject: [PATCH 41/60] fix: read and write members of type Any, JsonObject and
 JsonArray as JSON data

---
 strong_typing/deserializer.py | 36 ++++++++++++++++++++++++++++++++++-
 strong_typing/serializer.py   |  4 +++-
 2 files changed, 38 insertions(+), 2 deletions(-)

diff --git a/strong_typing/deserializer.py b/strong_typing/deserializer.py
index 3103111..ef35443 100644
--- a/strong_typing/deserializer.py
+++ b/strong_typing/deserializer.py
@@ -8,6 +8,7 @@ Type-safe data interchange for Python data classes.
 
 import abc
 import base64
+import copy
 import dataclasses
 import datetime
 import enum
@@ -23,7 +24,7 @@ from dataclasses import dataclass
 from types import ModuleType
 from typing import Any, Callable, Generic, Literal, NamedTuple, Optional, TypeVar, Union
 
-from .core import JsonType
+from .core import JsonArray, JsonObject, JsonType
 from .exception import JsonKeyError, JsonTypeError, JsonValueError
 from .inspection import (
     TypeLike,
@@ -113,6 +114,31 @@ class BoolDeserializer(Deserializer[bool]):
         return bool(data)
 
 
+class AnyDeserializer(Deserializer[Any]):
+    "Keeps JSON data as is."
+
+    def parse(self, data: JsonType) -> Any:
+        return copy.deepcopy(data)
+
+
+class JsonObjectDeserializer(Deserializer[JsonObject]):
+    "Keeps an unrestricted JSON `object` as is."
+
+    def parse(self, data: JsonType) -> Any:
+        if not isinstance(data, dict):
+            raise JsonTypeError(f"type `JsonObject` expects JSON `object` data but instead received: {data}")
+        return copy.deepcopy(data)
+
+
+class JsonArrayDeserializer(Deserializer[JsonArray]):
+    "Keeps an unrestricted JSON `array` as is."
+
+    def parse(self, data: JsonType) -> Any:
+        if not isinstance(data, list):
+            raise JsonTypeError(f"type `JsonArray` expects JSON `array` data but instead received: {data}")
+        return copy.deepcopy(data)
+
+
 class IntDeserializer(Deserializer[int]):
     "Parses JSON `number` values into Python `int` type."
 
@@ -971,6 +997,14 @@ def _create_deserializer(typ: TypeLike, options: DeserializerOptions) -> Deseria
     elif typ is ipaddress.IPv6Address:
         return IPv6Deserializer()
 
+    # unrestricted JSON data
+    if typ is Any:
+        return AnyDeserializer()
+    elif typ is JsonObject:
+        return JsonObjectDeserializer()
+    elif typ is JsonArray:
+        return JsonArrayDeserializer()
+
     # dynamically-typed collection types
     if typ is list:
         raise TypeError("explicit item type required: use `list[T]` instead of `list`")
diff --git a/strong_typing/serializer.py b/strong_typing/serializer.py
index 1b68ed0..1a15240 100644
--- a/strong_typing/serializer.py
+++ b/strong_typing/serializer.py
@@ -21,7 +21,7 @@ import uuid
 from types import FunctionType, MethodType, ModuleType
 from typing import Any, Callable, Generic, Literal, NamedTuple, Optional, TypeVar, Union
 
-from .core import JsonType
+from .core import JsonArray, JsonObject, JsonType
 from .exception import JsonTypeError, JsonValueError
 from .inspection import (
     TypeLike,
@@ -507,6 +507,8 @@ def _create_serializer(typ: TypeLike, context: Optional[ModuleType]) -> Serializ
         return UntypedSetSerializer()
     elif typ is tuple:
         return UntypedTupleSerializer()
+    elif typ is Any or typ is JsonObject or typ is JsonArray:
+        return UnionSerializer()
 
     if sys.version_info >= (3, 10) and isinstance(typ, types.UnionType):
         return UnionSerializer()
-- 
2.43.0


From ef34dbc0106b3cc6d311b07b19e91f92d29427c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:30 +0000
Subject: [PATCH 42/60] fix: accept documentation of members that a derived
 data class declares anew

---
 strong_typing/docstring.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/docstring.py b/strong_typing/docstring.py
index d1c2c94..7e9356d 100644
--- a/strong_typing/docstring.py
+++ b/strong_typing/docstring.py
@@ -389,8 +389,11 @@ def check_dataclass_docstring(typ: type[DataclassInstance], docstring: Docstring
 
     class_name = typ.__name__
 
+    # a derived class may re-declare (and document anew) a member that it would inherit
+    declared = typ.__dict__.get("__annotations__", {})
+
     for name in docstring.params:
-        if name not in properties:
+        if name not in properties and name not in declared:
             raise TypeError(f"doc-string parameter `{name}` is not a member of the data-class `{class_name}`")
 
     if not strict:
-- 
2.43.0


From 1fec0015ea69e2504fe054439c92d5324da26e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 43/60] fix: collect references of inherited members in the
 module that declares them

---
 strong_typing/inspection.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 0b347f3..fe87223 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -706,13 +706,12 @@ class TypeCollector:
 
         # type is a regular type
         if is_dataclass_type(typ) or is_type_enum(typ) or isinstance(typ, type):
-            context = sys.modules[typ.__module__]
             if is_dataclass_type(typ):
                 for field in dataclass_fields(typ):
-                    self.run(field.type, typ, context)
+                    self.run(field.type, typ, get_class_property_module(typ, field.name))
             else:
-                for _, field_type in get_resolved_hints(typ).items():
-                    self.run(field_type, typ, context)
+                for field_name, field_type in get_resolved_hints(typ).items():
+                    self.run(field_type, typ, get_class_property_module(typ, field_name))
             return
 
         raise TypeError(f"expected: type-like; got: {typ}")
-- 
2.43.0


From 6d0ff762f3d2148b24154bff7fbd7ff644732ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:18 +0000
Subject: [PATCH 44/60] fix: collect references of recursive type aliases such
 as JsonType

---
 strong_typing/inspection.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index fe87223..3738da9 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -615,6 +615,7 @@ class TypeCollector:
     """
 
     graph: dict[type, set[type]]
+    aliases: set[tuple[str, type, types.ModuleType]]  # type aliases that have been expanded
 
     @property
     def references(self) -> set[type]:
@@ -627,6 +628,7 @@ class TypeCollector:
 
     def __init__(self) -> None:
         self.graph = {_ROOT: set()}
+        self.aliases = set()
 
     def traverse(self, typ: type) -> None:
         "Finds all dependent types of a type."
@@ -682,6 +684,14 @@ class TypeCollector:
                 raise ValueError("missing context for evaluating types")
 
             evaluated_type = evaluate_type(typ, module)
+
+            # a recursive type alias refers to itself
+            if not isinstance(evaluated_type, type):
+                alias = (typ if isinstance(typ, str) else typ.__forward_arg__, cls, module)
+                if alias in self.aliases:
+                    return
+                self.aliases.add(alias)
+
             return self.run(evaluated_type, cls, module)
 
         # type is a special form
-- 
2.43.0


From 1d79e4fade6f684193a1e6177e1f18dd4a41b36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 45/60] fix: sort graphs that have long paths topologically
 without exhausting the stack

---
 strong_typing/topological.py | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/strong_typing/topological.py b/strong_typing/topological.py
index f5801c5..1c80ea2 100644
--- a/strong_typing/topological.py
+++ b/strong_typing/topological.py
@@ -4,7 +4,7 @@ Type-safe data interchange for Python data classes.
 :see: https://github.com/hunyadi/strong_typing
 """
 
-from typing import Callable, Iterable, Optional, TypeVar
+from typing import Callable, Iterable, Iterator, Optional, TypeVar
 
 from .inspection import _ROOT, TypeCollector
 
@@ -27,24 +27,34 @@ def topological_sort(graph: dict[T, set[T]]) -> list[T]:
 
     seen: dict[T, bool] = {}
 
-    def _visit(n: T) -> None:
+    # nodes being visited, with adjacent nodes yet to visit (not a recursive function due to long paths in graph)
+    stack: list[tuple[T, Iterator[T]]] = []
+
+    def _enter(n: T) -> bool:
         status = seen.get(n)
         if status is not None:
             if status:  # node has a permanent mark
-                return
+                return False
             else:  # node has a temporary mark
                 raise RuntimeError(f"cycle detected in graph for node {n}")
 
         seen[n] = False  # apply temporary mark
-        for m in graph[n]:  # visit all adjacent nodes
-            if m != n:  # ignore self-referencing nodes
-                _visit(m)
+        stack.append((n, iter(graph[n])))
+        return True
+
+    def _visit(n: T, adjacent: Iterator[T]) -> None:
+        for m in adjacent:  # visit all adjacent nodes
+            if m != n and _enter(m):  # ignore self-referencing nodes
+                return
 
         seen[n] = True  # apply permanent mark
         ordered.append(n)
+        stack.pop()
 
     for n in graph.keys():
-        _visit(n)
+        _enter(n)
+        while stack:
+            _visit(*stack[-1])
 
     return ordered
 
-- 
2.43.0


From cf2711027047ec48272809138b5414b25c3dba9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:31 +0000
Subject: [PATCH 46/60] fix: evaluate forward references to types called typ
 and module

---
 strong_typing/inspection.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 3738da9..364dac9 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -108,21 +108,21 @@ def evaluate_type(typ: Any, module: types.ModuleType) -> Any:
 
     if isinstance(typ, str):
         # evaluate data-class field whose type annotation is a string
-        return eval(typ, module.__dict__, locals())
+        return eval(typ, module.__dict__, {})
     if isinstance(typ, typing.ForwardRef):
         if sys.version_info >= (3, 14):
             return typing.evaluate_forward_ref(typ, owner=module)
         elif sys.version_info >= (3, 13):
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 type_params=(),
                 recursive_guard=frozenset(),
             )
         else:
             return typ._evaluate(
                 module.__dict__,
-                locals(),
+                {},
                 recursive_guard=frozenset(),
             )
     else:
-- 
2.43.0


From db528fe0d7d6310823cceebfcc5b70579ee05a6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:46 +0000
Subject: [PATCH 47/60] fix: evaluate inherited fields of a data class in the
 module that declares them

---
 strong_typing/inspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 364dac9..2c2cc76 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -163,7 +163,7 @@ def dataclass_fields(cls: type[DataclassInstance]) -> Iterable[DataclassField]:
     "Generates the fields of a data-class resolving forward references."
 
     for field in dataclasses.fields(cls):
-        yield DataclassField(field.name, evaluate_member_type(field.type, cls), field.default)
+        yield DataclassField(field.name, evaluate_type(field.type, get_class_property_module(cls, field.name)), field.default)
 
 
 def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> DataclassField:
@@ -171,7 +171,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_member_type(field.type, cls))
+            return DataclassField(field.name, evaluate_type(field.type, get_class_property_module(cls, field.name)))
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From 0d451a3b7b73de7f828cdf15a366e1d14955c9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 48/60] fix: apply the type transformation to classes that a
 string annotation refers to

---
 strong_typing/name.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index 7220ca9..dc3ce09 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -122,6 +122,10 @@ class TypeFormatter:
 
             if data_type.isidentifier() and data_type in self.context.__dict__:
                 # simple type name that is defined in the current context
+                defined_type = self.context.__dict__[data_type]
+                if isinstance(defined_type, type) and self.type_transform is not None:
+                    return self.type_transform(defined_type)
+
                 return data_type
 
             return self.python_type_to_str(evaluate_type(data_type, self.context))
-- 
2.43.0


From 4bac0633d4ebbbde70a1d35bfded8054ec5f941e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 49/60] fix: write generic types without arguments without
 brackets

---
 strong_typing/name.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strong_typing/name.py b/strong_typing/name.py
index dc3ce09..6cf918f 100644
--- a/strong_typing/name.py
+++ b/strong_typing/name.py
@@ -138,6 +138,9 @@ class TypeFormatter:
         if origin is not None:
             data_type_args = typing.get_args(data_type)
 
+            if not hasattr(data_type, "__args__"):  # un-subscripted generic type such as `List`
+                return origin.__name__
+
             if origin is dict:  # dict[K, V]
                 origin_name = "dict"
             elif origin is list:  # list[T]
-- 
2.43.0


From 53095591fe95b8d07f16abd104d5e2ec5f83b76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 50/60] fix: recognize annotated named tuple types

---
 strong_typing/inspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 2c2cc76..fe56ad2 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -190,11 +190,11 @@ def is_named_tuple_type(typ: Any) -> TypeGuard[type[NamedTuple]]:
     with a member named `_fields` that is a tuple whose items are all strings.
     """
 
+    typ = unwrap_annotated_type(typ)
+
     if not isinstance(typ, type):
         return False
 
-    typ = unwrap_annotated_type(typ)
-
     b = getattr(typ, "__bases__", None)
     if b is None:
         return False
-- 
2.43.0


From ede484d7f69a7c6aca05365ea9afb9bcee570b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 51/60] fix: take annotated union types apart

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index fe56ad2..cb74694 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -344,7 +344,7 @@ def unwrap_union_types(typ: object) -> tuple[object, ...]:
     :returns: The inner types `T1`, `T2`, etc.
     """
 
-    return _unwrap_union_types(typ)
+    return _unwrap_union_types(unwrap_annotated_type(typ))
 
 
 def _unwrap_union_types(typ: object) -> tuple[object, ...]:
-- 
2.43.0


From 1c75344e94b0ada328845660fc9b5064d9f8b60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 52/60] fix: check None in generic types such as list[None]

---
 strong_typing/inspection.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index cb74694..812c152 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -858,6 +858,10 @@ def is_generic_instance(obj: Any, typ: TypeLike) -> bool:
 
     typ = unwrap_annotated_type(typ)
 
+    # `None` stands for its type in generic types
+    if typ is None:
+        return obj is None
+
     # generic types (e.g. list, dict, set, etc.)
     origin_type = typing.get_origin(typ)
     if origin_type is list:
@@ -931,6 +935,10 @@ class RecursiveChecker:
 
         typ = unwrap_annotated_type(typ)
 
+        # `None` stands for its type in generic types
+        if typ is None:
+            typ = type(None)
+
         # check for well-known types
         if (
             typ is type(None)
-- 
2.43.0


From 15fcf4f1ac148316db34e35cf22f4a43d230c896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 53/60] fix: check all items of tuples of arbitrary length
 recursively

---
 strong_typing/inspection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 812c152..8efc62a 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -981,10 +981,13 @@ class RecursiveChecker:
         elif origin_type is tuple:
             if not isinstance(obj, tuple):
                 raise TypeError(f"expected `tuple` but got: {obj}")
+            tuple_item_types = typing.get_args(typ)
+            if len(tuple_item_types) == 2 and tuple_item_types[1] is Ellipsis:
+                return all(self.check(tuple_item_types[0], item) for item in obj)
             return all(
                 self.check(tuple_item_type, item)
                 for tuple_item_type, item in zip(
-                    (tuple_item_type for tuple_item_type in typing.get_args(typ)),
+                    (tuple_item_type for tuple_item_type in tuple_item_types),
                     (item for item in obj),
                 )
             )
-- 
2.43.0


From b2479961bff6ba3cfcd93a8e354695ef82309351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:50 +0000
Subject: [PATCH 54/60] fix: keep the default of a data class field that is
 looked up by name

---
 strong_typing/inspection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 8efc62a..9582b6b 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -171,7 +171,7 @@ def dataclass_field_by_name(cls: type[DataclassInstance], name: str) -> Dataclas
 
     for field in dataclasses.fields(cls):
         if field.name == name:
-            return DataclassField(field.name, evaluate_type(field.type, get_class_property_module(cls, field.name)))
+            return DataclassField(field.name, evaluate_type(field.type, get_class_property_module(cls, field.name)), field.default)
 
     raise LookupError(f"field `{name}` missing from class `{cls.__name__}`")
 
-- 
2.43.0


From 09455e3f03237014d5a1381222c133cea62328a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:07 +0000
Subject: [PATCH 55/60] fix: keep the width of all fixed-width integers when
 creating types from a schema

---
 strong_typing/classdef.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 5ed4073..c08c988 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -13,7 +13,7 @@ import uuid
 from dataclasses import dataclass
 from typing import Annotated, Any, Literal, Optional, TypeVar, Union
 
-from .auxiliary import Alias, MaxLength, Precision, float32, float64, int16, int32, int64
+from .auxiliary import Alias, MaxLength, Precision, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
 from .core import JsonType, Schema
 from .docstring import Docstring, DocstringParam
 from .inspection import TypeLike
@@ -253,12 +253,22 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
             return TypeDef(Literal[node.const], json_to_value(type(node.const), node.default))
 
         integer_type: TypeLike
-        if node.format == "int16":
+        if node.format == "int8":
+            integer_type = int8
+        elif node.format == "int16":
             integer_type = int16
         elif node.format == "int32":
             integer_type = int32
         elif node.format == "int64":
             integer_type = int64
+        elif node.format == "uint8":
+            integer_type = uint8
+        elif node.format == "uint16":
+            integer_type = uint16
+        elif node.format == "uint32":
+            integer_type = uint32
+        elif node.format == "uint64":
+            integer_type = uint64
         else:
             if node.enum is not None:
                 integer_type = integer_range_to_type(min(node.enum), max(node.enum))
-- 
2.43.0


From 330167bcde2af63da082ed7b3d206f10aaca4b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:07 +0000
Subject: [PATCH 56/60] fix: keep the minimum length of strings when creating
 types from a schema

---
 strong_typing/classdef.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index c08c988..eb7b54b 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -13,7 +13,7 @@ import uuid
 from dataclasses import dataclass
 from typing import Annotated, Any, Literal, Optional, TypeVar, Union
 
-from .auxiliary import Alias, MaxLength, Precision, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
+from .auxiliary import Alias, Length, MaxLength, MinLength, Precision, float32, float64, int8, int16, int32, int64, uint8, uint16, uint32, uint64
 from .core import JsonType, Schema
 from .docstring import Docstring, DocstringParam
 from .inspection import TypeLike
@@ -345,6 +345,15 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
                 description=node.description,
             )
 
+        elif node.minLength is not None and node.minLength == node.maxLength:
+            string_type = Annotated[str, Length(node.minLength)]
+            string_type = typing.cast(type[str], string_type)
+        elif node.minLength is not None and node.maxLength is not None:
+            string_type = Annotated[str, MinLength(node.minLength), MaxLength(node.maxLength)]
+            string_type = typing.cast(type[str], string_type)
+        elif node.minLength is not None:
+            string_type = Annotated[str, MinLength(node.minLength)]
+            string_type = typing.cast(type[str], string_type)
         elif node.maxLength is not None:
             string_type = Annotated[str, MaxLength(node.maxLength)]
             string_type = typing.cast(type[str], string_type)
-- 
2.43.0


From 30e38b15cedb6b2be41c2f6da4e951a3aefb8686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:07 +0000
Subject: [PATCH 57/60] fix: create fields for schema properties whose name is
 a Python keyword

---
 strong_typing/classdef.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index eb7b54b..0653e7b 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -4,6 +4,7 @@ import datetime
 import decimal
 import enum
 import ipaddress
+import keyword
 import math
 import re
 import sys
@@ -389,10 +390,11 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
                 prop_type = type_def.type
             else:
                 prop_type = Union[(None, type_def.type)]
-            fields.append((prop_name, prop_type, dataclasses.field(default=type_def.default)))
+            field_name = f"{prop_name}_" if keyword.iskeyword(prop_name) else prop_name
+            fields.append((field_name, prop_type, dataclasses.field(default=type_def.default)))
             prop_desc = prop_node.title or prop_node.description
             if prop_desc is not None:
-                params[prop_name] = DocstringParam(prop_name, prop_desc)
+                params[field_name] = DocstringParam(field_name, prop_desc)
 
         fields.sort(key=lambda t: t[2].default is not dataclasses.MISSING)
         if sys.version_info >= (3, 12):
-- 
2.43.0


From c4dd42254467f1a533d985bde14d179cf9862d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:07 +0000
Subject: [PATCH 58/60] fix: accept empty text and reserved names as
 enumeration values of a schema

---
 strong_typing/classdef.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 0653e7b..490c55f 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -144,7 +144,8 @@ def enum_safe_name(name: str) -> str:
     name = re.sub(r"\W", "_", name)
     is_dunder = name.startswith("__")
     is_sunder = name.startswith("_") and name.endswith("_")
-    if is_dunder or is_sunder:  # provide an alternative for dunder and sunder names
+    is_reserved = name in ("", "mro")
+    if is_dunder or is_sunder or is_reserved:  # provide an alternative for dunder, sunder and reserved names
         name = f"v{name}"
     return name
 
-- 
2.43.0


From 5b7826e27a0846daca10110e634dc4be3e403163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 59/60] fix: do not take the documentation of a nested type for
 that of the property when creating types from a schema

---
 strong_typing/classdef.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/strong_typing/classdef.py b/strong_typing/classdef.py
index 490c55f..bb450ec 100644
--- a/strong_typing/classdef.py
+++ b/strong_typing/classdef.py
@@ -221,6 +221,17 @@ def node_references(node: JsonSchemaNode) -> set[str]:
         return set()
 
 
+def node_has_own_type(node: JsonSchemaNode) -> bool:
+    "True if a type with documentation of its own (class or enumeration) is created for a schema node."
+
+    if isinstance(node, JsonSchemaObject):
+        return node.properties is not None
+    elif isinstance(node, JsonSchemaString):
+        return node.const is None and node.format is None and node.enum is not None
+    else:
+        return False
+
+
 @dataclass
 class TypeDef:
     type: TypeLike
@@ -393,7 +404,11 @@ def node_to_typedef(module: types.ModuleType, context: str, node: JsonSchemaNode
                 prop_type = Union[(None, type_def.type)]
             field_name = f"{prop_name}_" if keyword.iskeyword(prop_name) else prop_name
             fields.append((field_name, prop_type, dataclasses.field(default=type_def.default)))
-            prop_desc = prop_node.title or prop_node.description
+            if node_has_own_type(prop_node) and prop_node.title is not None:
+                # text documents the type created for the property, not the property
+                prop_desc = None
+            else:
+                prop_desc = prop_node.title or prop_node.description
             if prop_desc is not None:
                 params[field_name] = DocstringParam(field_name, prop_desc)
 
-- 
2.43.0


From 104902896f028f4ce8d11f3b73fd899ea2f72587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:55 +0000
Subject: [PATCH 60/60] fix: extend_enum silently replaces a member of the
 source with a conflicting value

---
 strong_typing/inspection.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/strong_typing/inspection.py b/strong_typing/inspection.py
index 9582b6b..33f0331 100644
--- a/strong_typing/inspection.py
+++ b/strong_typing/inspection.py
@@ -251,15 +251,18 @@ def extend_enum(
         # create new enumeration type combining the values from both types
         values: dict[str, Any] = {}
         values.update((e.name, e.value) for e in source)
-        values.update((e.name, e.value) for e in extend)
-        enum_class: type[enum.Enum] = enum.Enum(extend.__name__, values)  # type: ignore
+        for e in extend:
+            if e.name in values and values[e.name] != e.value:
+                raise ValueError(f"conflicting values for enumeration member: {e.name}")
+            values[e.name] = e.value
+        enum_class: type[enum.Enum] = enum.unique(enum.Enum(extend.__name__, values))  # type: ignore
 
         # assign the newly created type to the same module where the extending class is defined
         enum_class.__module__ = extend.__module__
         enum_class.__doc__ = extend.__doc__
         setattr(sys.modules[extend.__module__], extend.__name__, enum_class)
 
-        return enum.unique(enum_class)
+        return enum_class
 
     return wrap
 
-- 
2.43.0

