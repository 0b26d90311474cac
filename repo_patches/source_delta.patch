From bbb4cdf0d0a03b7697902fc2c822b1cca8f8dc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 01/12] fix: convert NaN to null in null mode

NaN never compares equal to math.nan, so NaN floats were not replaced and
the strict JSON writer then failed half way through the output file.
---
 palworld_save_tools/archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..bd66f5b 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -333,7 +333,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
@@ -343,7 +343,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
-- 
2.43.0


From 5839494cf8ea02d57772ca2c6ef3780e354e93c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 02/12] fix: write packed vectors holding null, NaN or
 fractional components

Such vectors are read from their full-precision form but could not be
written back: null and NaN raised, fractions were silently cut off.
---
 palworld_save_tools/archive.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index bd66f5b..bdc47b7 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1006,15 +1006,26 @@ class FArchiveWriter:
             int.to_bytes(value, (component_bit_count + 7) // 8, "little", signed=True)
         )
 
-    def packed_vector(self, scale_factor: int, x: _float, y: _float, z: _float):
+    def packed_vector(
+        self,
+        scale_factor: int,
+        x: Optional[_float],
+        y: Optional[_float],
+        z: Optional[_float],
+    ):
         max_exponent_for_scaling = 52
         max_value_to_scale = 1 << max_exponent_for_scaling
         max_exponent_after_scaling = 62
         max_scaled_value = 1 << max_exponent_after_scaling
+        x, y, z = (float("nan") if v is None else v for v in (x, y, z))
         scaled_x = x * scale_factor
         scaled_y = y * scale_factor
         scaled_z = z * scale_factor
-        if max(abs(scaled_x), abs(scaled_y), abs(scaled_z)) < max_scaled_value:
+        # Only whole numbers fit the packed form, anything else is stored in full
+        if all(
+            abs(v) < max_scaled_value and v == self.unreal_round_float_to_int(v)
+            for v in (scaled_x, scaled_y, scaled_z)
+        ):
             use_scaled_value = min(abs(x), abs(y), abs(z)) < max_value_to_scale
             if use_scaled_value:
                 x = self.unreal_round_float_to_int(scaled_x)
-- 
2.43.0


From 8fd8eecc071da07331de080363f4edfcdadba686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 03/12] fix: write Guid arrays, which the reader already
 accepts

---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index bdc47b7..682a62b 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -963,6 +963,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "ByteProperty":
                 self.byte(values[i])
             else:
-- 
2.43.0


From 58a8913a679e11da65787e8ba5d2fca79feccb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 04/12] fix: detect strings and ids cut off by the end of the
 data

A short read silently produced a shortened string, or an id that only
failed once the output file was already being written.
---
 palworld_save_tools/archive.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 682a62b..22a4c9f 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -277,10 +277,16 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            data = reader.read(size * 2)
+            if len(data) != size * 2:
+                raise Exception(f"could not read utf-16-le string of length {size}")
+            data = data[:-2]
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            data = reader.read(size)
+            if len(data) != size:
+                raise Exception(f"could not read ascii string of length {size}")
+            data = data[:-1]
             encoding = "ascii"
 
         try:
@@ -360,12 +366,15 @@ class FArchiveReader:
 
     def guid(self) -> UUID:
         # in the hot loop, avoid function calls
-        return UUID(self.data.read(16))
+        b = self.data.read(16)
+        if len(b) != 16:
+            raise Exception("could not read 16 bytes for uuid")
+        return UUID(b)
 
     def optional_guid(self) -> Optional[UUID]:
         # in the hot loop, avoid function calls
         if self.data.read(1)[0]:
-            return UUID(self.data.read(16))
+            return self.guid()
         return None
 
     def tarray(self, type_reader: Callable[["FArchiveReader"], Any]) -> list[Any]:
-- 
2.43.0


From 0c9a8efeac855f8914fcf854b38e647104a18ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 05/12] fix: hash recordclass-based UUIDs like the strings they
 equal

---
 palworld_save_tools/archive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 22a4c9f..ff0f2ca 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -187,6 +187,10 @@ else:
         def __repr__(self) -> str:
             return "%s.UUID('%s')" % (self.__module__, str(self))
 
+    # as_dataclass ignores a __hash__ defined in the class body, and its own one is
+    # inconsistent with being equal to the string form
+    UUID.__hash__ = lambda self: hash(str(self))  # type: ignore[method-assign]
+
 
 # Specify a type for JSON-serializable objects
 JSON = Union[
-- 
2.43.0


From 142e83251ff0bc70b9f661cba39ac144e67219ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 06/12] fix: write back works of unknown kind or with an
 unknown transform

The reader falls back to raw bytes for these, which the writer could not
handle.
---
 palworld_save_tools/rawdata/work.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..91cc4d1 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -159,11 +159,12 @@ def encode(
     del properties["custom_type"]
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        work_element["RawData"]["value"] = {
-            "values": [
-                b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-            ]
-        }
+        if "values" not in work_element["RawData"]["value"]:
+            work_element["RawData"]["value"] = {
+                "values": [
+                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
+                ]
+            }
         for work_assign in work_element["WorkAssignMap"]["value"]:
             work_assign["value"]["RawData"]["value"] = {
                 "values": [
@@ -248,7 +249,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From 322f1a935ea6d2e249c8aa955f5028e45cc2f1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:37 +0000
Subject: [PATCH 07/12] fix: keep surplus bytes of base camp modules

Bytes after the decoded part were dropped, and missing from the save
written back.
---
 palworld_save_tools/rawdata/base_camp_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..ba983c5 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,8 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(f"Warning: EOF not reached for {module_type}, falling back to raw bytes")
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From 13d90ecd9d5e3ed2899402b001b371a39305439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 08/12] fix: leave the document untouched when writing it

Encoding a custom property removed its custom_type and replaced decoded
values by raw bytes in the caller's document, so exporting or writing it
again gave something else or failed.
---
 palworld_save_tools/archive.py                |   3 +-
 .../rawdata/base_camp_module.py               |  17 ++-
 palworld_save_tools/rawdata/common.py         |   7 +-
 palworld_save_tools/rawdata/group.py          |  17 ++-
 palworld_save_tools/rawdata/map_object.py     | 107 ++++++++++--------
 palworld_save_tools/rawdata/work.py           |  41 ++++---
 6 files changed, 118 insertions(+), 74 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index ff0f2ca..df3e415 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -831,8 +831,9 @@ class FArchiveWriter:
     def property_inner(self, property_type: str, property: dict[str, Any]) -> int:
         if "custom_type" in property:
             if property["custom_type"] in self.custom_properties:
+                # encoders replace the decoded value, keep that out of the document
                 size = self.custom_properties[property["custom_type"]][1](
-                    self, property_type, property
+                    self, property_type, dict(property)
                 )
             else:
                 raise Exception(
diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index ba983c5..ac7b7d4 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -4,6 +4,7 @@ from palworld_save_tools.archive import *
 from palworld_save_tools.rawdata.common import (
     pal_item_and_num_read,
     pal_item_and_slot_writer,
+    with_raw_values,
 )
 
 NO_OP_TYPES = [
@@ -102,13 +103,17 @@ def encode(
         raise Exception(f"Expected MapProperty, got {property_type}")
     del properties["custom_type"]
 
-    module_map = properties["value"]
-    for module in module_map:
+    module_map = []
+    for module in properties["value"]:
         module_type = module["key"]
-        if "values" not in module["value"]["RawData"]["value"]:
-            module["value"]["RawData"]["value"]["values"] = encode_bytes(
-                module["value"]["RawData"]["value"], module_type
-            )
+        p = module["value"]["RawData"]["value"]
+        if "values" not in p:
+            module = {
+                **module,
+                "value": with_raw_values(module["value"], encode_bytes(p, module_type)),
+            }
+        module_map.append(module)
+    properties["value"] = module_map
 
     return writer.property_inner(property_type, properties)
 
diff --git a/palworld_save_tools/rawdata/common.py b/palworld_save_tools/rawdata/common.py
index 2b6130f..a8da7ed 100644
--- a/palworld_save_tools/rawdata/common.py
+++ b/palworld_save_tools/rawdata/common.py
@@ -1,8 +1,13 @@
-from typing import Any
+from typing import Any, Sequence
 
 from palworld_save_tools.archive import Any, FArchiveReader, FArchiveWriter
 
 
+def with_raw_values(p: dict[str, Any], values: Sequence[int]) -> dict[str, Any]:
+    """Copy of a struct with the value of its RawData replaced, leaving p as it is"""
+    return {**p, "RawData": {**p["RawData"], "value": {"values": values}}}
+
+
 def pal_item_and_num_read(reader: FArchiveReader) -> dict[str, Any]:
     return {
         "item_id": {
diff --git a/palworld_save_tools/rawdata/group.py b/palworld_save_tools/rawdata/group.py
index 9995479..b29b701 100644
--- a/palworld_save_tools/rawdata/group.py
+++ b/palworld_save_tools/rawdata/group.py
@@ -1,6 +1,7 @@
 from typing import Sequence
 
 from palworld_save_tools.archive import *
+from palworld_save_tools.rawdata.common import with_raw_values
 
 
 def decode(
@@ -84,13 +85,17 @@ def encode(
     if property_type != "MapProperty":
         raise Exception(f"Expected MapProperty, got {property_type}")
     del properties["custom_type"]
-    group_map = properties["value"]
-    for group in group_map:
-        if "values" in group["value"]["RawData"]["value"]:
-            continue
+    group_map = []
+    for group in properties["value"]:
         p = group["value"]["RawData"]["value"]
-        encoded_bytes = encode_bytes(p)
-        group["value"]["RawData"]["value"] = {"values": [b for b in encoded_bytes]}
+        if "values" not in p:
+            encoded_bytes = encode_bytes(p)
+            group = {
+                **group,
+                "value": with_raw_values(group["value"], [b for b in encoded_bytes]),
+            }
+        group_map.append(group)
+    properties["value"] = group_map
     return writer.property_inner(property_type, properties)
 
 
diff --git a/palworld_save_tools/rawdata/map_object.py b/palworld_save_tools/rawdata/map_object.py
index 79e548e..124d547 100644
--- a/palworld_save_tools/rawdata/map_object.py
+++ b/palworld_save_tools/rawdata/map_object.py
@@ -8,6 +8,7 @@ from palworld_save_tools.rawdata import (
     map_concrete_model_module,
     map_model,
 )
+from palworld_save_tools.rawdata.common import with_raw_values
 
 
 def decode(
@@ -69,60 +70,72 @@ def encode(
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
 
+    map_objects = []
     for map_object in properties["value"]["values"]:
         # Encode Model
-        if "values" not in map_object["Model"]["value"]["RawData"]["value"]:
-            map_object["Model"]["value"]["RawData"]["value"] = {
-                "values": map_model.encode_bytes(
-                    map_object["Model"]["value"]["RawData"]["value"]
-                )
-            }
+        model = map_object["Model"]["value"]
+        if "values" not in model["RawData"]["value"]:
+            model = with_raw_values(
+                model, map_model.encode_bytes(model["RawData"]["value"])
+            )
         # Encode Model.Connector
-        if (
-            "values"
-            not in map_object["Model"]["value"]["Connector"]["value"]["RawData"][
-                "value"
-            ]
-        ):
-            map_object["Model"]["value"]["Connector"]["value"]["RawData"]["value"] = {
-                "values": connector.encode_bytes(
-                    map_object["Model"]["value"]["Connector"]["value"]["RawData"][
-                        "value"
-                    ],
-                )
-            }
+        model_connector = model["Connector"]["value"]
+        if "values" not in model_connector["RawData"]["value"]:
+            model_connector = with_raw_values(
+                model_connector,
+                connector.encode_bytes(model_connector["RawData"]["value"]),
+            )
         # Encode Model.BuildProcess
-        if (
-            "values"
-            not in map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
-                "value"
-            ]
-        ):
-            map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
-                "value"
-            ] = {
-                "values": build_process.encode_bytes(
-                    map_object["Model"]["value"]["BuildProcess"]["value"]["RawData"][
-                        "value"
-                    ],
-                )
-            }
+        model_build_process = model["BuildProcess"]["value"]
+        if "values" not in model_build_process["RawData"]["value"]:
+            model_build_process = with_raw_values(
+                model_build_process,
+                build_process.encode_bytes(model_build_process["RawData"]["value"]),
+            )
         # Encode ConcreteModel
-        if "values" not in map_object["ConcreteModel"]["value"]["RawData"]["value"]:
-            map_object["ConcreteModel"]["value"]["RawData"]["value"] = {
-                "values": map_concrete_model.encode_bytes(
-                    map_object["ConcreteModel"]["value"]["RawData"]["value"],
-                )
-            }
+        concrete_model = map_object["ConcreteModel"]["value"]
+        if "values" not in concrete_model["RawData"]["value"]:
+            concrete_model = with_raw_values(
+                concrete_model,
+                map_concrete_model.encode_bytes(concrete_model["RawData"]["value"]),
+            )
         # Encode ConcreteModel.ModuleMap
-        for module in map_object["ConcreteModel"]["value"]["ModuleMap"]["value"]:
-            if "values" not in module["value"]["RawData"]["value"]:
+        modules = []
+        for module in concrete_model["ModuleMap"]["value"]:
+            p = module["value"]["RawData"]["value"]
+            if "values" not in p:
                 module_type = module["key"]
-                module["value"]["RawData"]["value"] = {
-                    "values": map_concrete_model_module.encode_bytes(
-                        module["value"]["RawData"]["value"],
-                        module_type,
-                    )
+                module = {
+                    **module,
+                    "value": with_raw_values(
+                        module["value"],
+                        map_concrete_model_module.encode_bytes(p, module_type),
+                    ),
                 }
+            modules.append(module)
+        map_objects.append(
+            {
+                **map_object,
+                "Model": {
+                    **map_object["Model"],
+                    "value": {
+                        **model,
+                        "Connector": {**model["Connector"], "value": model_connector},
+                        "BuildProcess": {
+                            **model["BuildProcess"],
+                            "value": model_build_process,
+                        },
+                    },
+                },
+                "ConcreteModel": {
+                    **map_object["ConcreteModel"],
+                    "value": {
+                        **concrete_model,
+                        "ModuleMap": {**concrete_model["ModuleMap"], "value": modules},
+                    },
+                },
+            }
+        )
+    properties["value"] = {**properties["value"], "values": map_objects}
 
     return writer.property_inner(property_type, properties)
diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 91cc4d1..61e46b6 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -1,6 +1,7 @@
 from typing import Any, Sequence
 
 from palworld_save_tools.archive import *
+from palworld_save_tools.rawdata.common import with_raw_values
 
 WORK_BASE_TYPES = set(
     [
@@ -157,23 +158,37 @@ def encode(
     if property_type != "ArrayProperty":
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
+    work_elements = []
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        if "values" not in work_element["RawData"]["value"]:
-            work_element["RawData"]["value"] = {
-                "values": [
-                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-                ]
-            }
+        p = work_element["RawData"]["value"]
+        if "values" not in p:
+            work_element = with_raw_values(
+                work_element, [b for b in encode_bytes(p, work_type)]
+            )
+        work_assigns = []
         for work_assign in work_element["WorkAssignMap"]["value"]:
-            work_assign["value"]["RawData"]["value"] = {
-                "values": [
-                    b
-                    for b in encode_work_assign_bytes(
-                        work_assign["value"]["RawData"]["value"]
-                    )
-                ]
+            encoded_bytes = encode_work_assign_bytes(
+                work_assign["value"]["RawData"]["value"]
+            )
+            work_assigns.append(
+                {
+                    **work_assign,
+                    "value": with_raw_values(
+                        work_assign["value"], [b for b in encoded_bytes]
+                    ),
+                }
+            )
+        work_elements.append(
+            {
+                **work_element,
+                "WorkAssignMap": {
+                    **work_element["WorkAssignMap"],
+                    "value": work_assigns,
+                },
             }
+        )
+    properties["value"] = {**properties["value"], "values": work_elements}
     return writer.property_inner(property_type, properties)
 
 
-- 
2.43.0


From 793bc7eead88660f2e60bf45d1d574143a44d72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:26 +0000
Subject: [PATCH 09/12] fix: convert in one direction, to the documented output
 path

--to-json on a .json file (and --from-json on a .sav file) also ran the
opposite conversion, .json was removed anywhere in the path instead of at
its end, and a file of unrecognised extension was ignored with status 0.
---
 palworld_save_tools/commands/convert.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..8e3fe80 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,13 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    # An explicit direction overrides the file extension
+    to_json = args.to_json or (not args.from_json and args.filename.endswith(".sav"))
+    from_json = args.from_json or (
+        not args.to_json and args.filename.endswith(".json")
+    )
+
+    if to_json:
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -77,13 +83,21 @@ def main():
             custom_properties_keys=args.custom_properties,
         )
 
-    if args.from_json or args.filename.endswith(".json"):
-        if not args.output:
-            output_path = args.filename.replace(".json", "")
-        else:
+    elif from_json:
+        if args.output:
             output_path = args.output
+        elif args.filename.endswith(".json"):
+            output_path = args.filename.removesuffix(".json")
+        else:
+            output_path = args.filename + ".sav"
         convert_json_to_sav(args.filename, output_path, force=args.force)
 
+    else:
+        print(
+            f"{args.filename} is neither a .sav nor a .json file, specify --to-json or --from-json"
+        )
+        exit(1)
+
 
 def convert_sav_to_json(
     filename,
-- 
2.43.0


From 06ffee26f78aca4f61214271d6c35bb2b30c84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:38 +0000
Subject: [PATCH 10/12] fix: convert saves with names the console cannot show

---
 palworld_save_tools/commands/convert.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 8e3fe80..426be12 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -1,8 +1,10 @@
 #!/usr/bin/env python3
 
 import argparse
+import io
 import json
 import os
+import sys
 
 from palworld_save_tools.gvas import GvasFile
 from palworld_save_tools.json_tools import CustomEncoder
@@ -11,6 +13,7 @@ from palworld_save_tools.paltypes import PALWORLD_CUSTOM_PROPERTIES, PALWORLD_TY
 
 
 def main():
+    show_any_name()
     parser = argparse.ArgumentParser(
         prog="palworld-save-tools",
         description="Converts Palworld save files to and from JSON",
@@ -99,6 +102,12 @@ def main():
         exit(1)
 
 
+def show_any_name():
+    # Messages quote names from the save, which the console may not be able to show
+    if isinstance(sys.stdout, io.TextIOWrapper):
+        sys.stdout.reconfigure(errors="backslashreplace")
+
+
 def convert_sav_to_json(
     filename,
     output_path,
@@ -107,6 +116,7 @@ def convert_sav_to_json(
     allow_nan=True,
     custom_properties_keys=["all"],
 ):
+    show_any_name()
     print(f"Converting {filename} to JSON, saving to {output_path}")
     if os.path.exists(output_path):
         print(f"{output_path} already exists, this will overwrite the file")
@@ -137,6 +147,7 @@ def convert_sav_to_json(
 
 
 def convert_json_to_sav(filename, output_path, force=False):
+    show_any_name()
     print(f"Converting {filename} to SAV, saving to {output_path}")
     if os.path.exists(output_path):
         print(f"{output_path} already exists, this will overwrite the file")
-- 
2.43.0


From 21d4f431ff4d1db9ee590e0008e547f99f53b92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:25 +0000
Subject: [PATCH 11/12] fix: write back records inside the properties of
 characters and eggs

---
 palworld_save_tools/rawdata/character.py          | 10 ++++++----
 palworld_save_tools/rawdata/dynamic_item.py       | 10 ++++++----
 palworld_save_tools/rawdata/map_concrete_model.py |  6 ++++--
 palworld_save_tools/rawdata/map_object.py         |  4 +++-
 4 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/palworld_save_tools/rawdata/character.py b/palworld_save_tools/rawdata/character.py
index 23566c7..8d3b0fd 100644
--- a/palworld_save_tools/rawdata/character.py
+++ b/palworld_save_tools/rawdata/character.py
@@ -1,4 +1,4 @@
-from typing import Any, Sequence
+from typing import Any, Optional, Sequence
 
 from palworld_save_tools.archive import *
 
@@ -34,13 +34,15 @@ def encode(
     if property_type != "ArrayProperty":
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
-    encoded_bytes = encode_bytes(properties["value"])
+    encoded_bytes = encode_bytes(properties["value"], writer)
     properties["value"] = {"values": [b for b in encoded_bytes]}
     return writer.property_inner(property_type, properties)
 
 
-def encode_bytes(p: dict[str, Any]) -> bytes:
-    writer = FArchiveWriter()
+def encode_bytes(
+    p: dict[str, Any], parent_writer: Optional[FArchiveWriter] = None
+) -> bytes:
+    writer = parent_writer.copy() if parent_writer else FArchiveWriter()
     writer.properties(p["object"])
     writer.write(bytes(p["unknown_bytes"]))
     writer.guid(p["group_id"])
diff --git a/palworld_save_tools/rawdata/dynamic_item.py b/palworld_save_tools/rawdata/dynamic_item.py
index 631e435..813f512 100644
--- a/palworld_save_tools/rawdata/dynamic_item.py
+++ b/palworld_save_tools/rawdata/dynamic_item.py
@@ -1,4 +1,4 @@
-from typing import Any, Sequence
+from typing import Any, Optional, Sequence
 
 from palworld_save_tools.archive import *
 
@@ -79,15 +79,17 @@ def encode(
     if property_type != "ArrayProperty":
         raise Exception(f"Expected ArrayProperty, got {property_type}")
     del properties["custom_type"]
-    encoded_bytes = encode_bytes(properties["value"])
+    encoded_bytes = encode_bytes(properties["value"], writer)
     properties["value"] = {"values": [b for b in encoded_bytes]}
     return writer.property_inner(property_type, properties)
 
 
-def encode_bytes(p: dict[str, Any]) -> bytes:
+def encode_bytes(
+    p: dict[str, Any], parent_writer: Optional[FArchiveWriter] = None
+) -> bytes:
     if p is None:
         return bytes()
-    writer = FArchiveWriter()
+    writer = parent_writer.copy() if parent_writer else FArchiveWriter()
     writer.guid(p["id"]["created_world_id"])
     writer.guid(p["id"]["local_id_in_created_world"])
     writer.fstring(p["id"]["static_id"])
diff --git a/palworld_save_tools/rawdata/map_concrete_model.py b/palworld_save_tools/rawdata/map_concrete_model.py
index 74938bb..5738f1e 100644
--- a/palworld_save_tools/rawdata/map_concrete_model.py
+++ b/palworld_save_tools/rawdata/map_concrete_model.py
@@ -444,11 +444,13 @@ def decode_bytes(
     return data
 
 
-def encode_bytes(p: Optional[dict[str, Any]]) -> bytes:
+def encode_bytes(
+    p: Optional[dict[str, Any]], parent_writer: Optional[FArchiveWriter] = None
+) -> bytes:
     if p is None:
         return b""
 
-    writer = FArchiveWriter()
+    writer = parent_writer.copy() if parent_writer else FArchiveWriter()
 
     map_object_concrete_model = p["concrete_model_type"]
 
diff --git a/palworld_save_tools/rawdata/map_object.py b/palworld_save_tools/rawdata/map_object.py
index 124d547..63ad543 100644
--- a/palworld_save_tools/rawdata/map_object.py
+++ b/palworld_save_tools/rawdata/map_object.py
@@ -97,7 +97,9 @@ def encode(
         if "values" not in concrete_model["RawData"]["value"]:
             concrete_model = with_raw_values(
                 concrete_model,
-                map_concrete_model.encode_bytes(concrete_model["RawData"]["value"]),
+                map_concrete_model.encode_bytes(
+                    concrete_model["RawData"]["value"], writer
+                ),
             )
         # Encode ConcreteModel.ModuleMap
         modules = []
-- 
2.43.0


From 7cb03172d8783ca499c9149422e3f0a3a09ec195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:07 +0000
Subject: [PATCH 12/12] fix: write back an empty record with the stand-alone
 connector decoder

---
 palworld_save_tools/rawdata/connector.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/rawdata/connector.py b/palworld_save_tools/rawdata/connector.py
index 8796b79..5ca12ab 100644
--- a/palworld_save_tools/rawdata/connector.py
+++ b/palworld_save_tools/rawdata/connector.py
@@ -72,6 +72,8 @@ def encode(
 def encode_bytes(p: dict[str, Any]) -> bytes:
     if p is None:
         return bytes()
+    if "values" in p:
+        return bytes(p["values"])
     writer = FArchiveWriter()
     writer.i32(p["supported_level"])
     writer.byte(p["connect"]["index"])
-- 
2.43.0

