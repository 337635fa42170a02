From 409c190486ea122cf1ec65d9f3869f77f7713ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:56 +0000
Subject: [PATCH 01/32] fix: do not print while resolving template tilesets

A leftover debug print wrote "here" to stdout whenever a TMX map needed a
tileset from an object template.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 988e5cf..5df88fd 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -107,7 +107,6 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        print("here")
                         highest_firstgid = max(map_.tilesets.keys())
                         last_tileset_count = map_.tilesets[highest_firstgid].tile_count
                         new_firstgid = highest_firstgid + last_tileset_count
-- 
2.43.0


From 0b3d45eed5a47251148fad50b6b327349e923214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:58 +0000
Subject: [PATCH 02/32] fix: give every TiledObject its own properties dict

The default was one dict shared by all objects, so adding a property to one
object without properties added it to all of them.
---
 pytiled_parser/tiled_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/tiled_object.py b/pytiled_parser/tiled_object.py
index edf7495..4b33405 100644
--- a/pytiled_parser/tiled_object.py
+++ b/pytiled_parser/tiled_object.py
@@ -39,7 +39,7 @@ class TiledObject:
     name: str = ""
     class_: str = ""
 
-    properties: properties_.Properties = {}
+    properties: properties_.Properties = attr.ib(factory=dict)
 
 
 @attr.s()
-- 
2.43.0


From c2f45d9ab4b7c36cba1fa15ab0dee86ea42e0f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:00 +0000
Subject: [PATCH 03/32] fix: only collect direct children of a TMX map as its
 layers

iter() walks all descendants, so layers inside groups were listed a second
time at the top level and collision shapes of embedded tilesets showed up as
object layers of the map.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 5df88fd..aa246f5 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -60,7 +60,7 @@ def parse(file: Path) -> TiledMap:
             )
 
     layers = []
-    for element in raw_map.iter():
+    for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
             layers.append(parse_layer(element, parent_dir))
 
-- 
2.43.0


From 84e4552517d4b89c16d09d07f3f82c054933fcf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:02 +0000
Subject: [PATCH 04/32] fix: keep the draw order of layers inside TMX groups

Children of a group were collected kind by kind, which lost the order in which
they are drawn.
---
 pytiled_parser/parsers/tmx/layer.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index df219bb..f1a9036 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -326,23 +326,9 @@ def _parse_group_layer(
         LayerGroup: The LayerGroup created from raw_layer
     """
     layers: List[Layer] = []
-    for layer in raw_layer.findall("./layer"):
-        layers.append(_parse_tile_layer(layer))
-
-    for layer in raw_layer.findall("./objectgroup"):
-        layers.append(_parse_object_layer(layer, parent_dir))
-
-    for layer in raw_layer.findall("./imagelayer"):
-        layers.append(_parse_image_layer(layer))
-
-    for layer in raw_layer.findall("./group"):
-        layers.append(_parse_group_layer(layer, parent_dir))
-    # layers = []
-    # layers = [
-    #    parse(child_layer, parent_dir=parent_dir)
-    #    for child_layer in raw_layer.iter()
-    #    if child_layer.tag in ["layer", "objectgroup", "imagelayer", "group"]
-    # ]
+    for layer in raw_layer:
+        if layer.tag in ["layer", "objectgroup", "imagelayer", "group"]:
+            layers.append(parse(layer, parent_dir))
 
     return LayerGroup(layers=layers, **_parse_common(raw_layer).__dict__)
 
-- 
2.43.0


From d6dc85a3280367d6a7d534b2c317715320f7649f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:04 +0000
Subject: [PATCH 05/32] fix: read the class of Wang sets and Wang colors from
 JSON

Only the TMX parser filled in class_.
---
 pytiled_parser/parsers/json/wang_set.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pytiled_parser/parsers/json/wang_set.py b/pytiled_parser/parsers/json/wang_set.py
index f44c4b2..4cb5cd8 100644
--- a/pytiled_parser/parsers/json/wang_set.py
+++ b/pytiled_parser/parsers/json/wang_set.py
@@ -82,6 +82,9 @@ def _parse_wang_color(raw_wang_color: RawWangColor) -> WangColor:
         probability=raw_wang_color["probability"],
     )
 
+    if raw_wang_color.get("class") is not None:
+        wang_color.class_ = raw_wang_color["class"]
+
     if raw_wang_color.get("properties") is not None:
         wang_color.properties = parse_properties(raw_wang_color["properties"])
 
@@ -114,6 +117,9 @@ def parse(raw_wangset: RawWangSet) -> WangSet:
         wang_tiles=tiles,
     )
 
+    if raw_wangset.get("class") is not None:
+        wangset.class_ = raw_wangset["class"]
+
     if raw_wangset.get("properties") is not None:
         wangset.properties = parse_properties(raw_wangset["properties"])
 
-- 
2.43.0


From 58a4f1e03d23d0e9c853421da1387337fce4e1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:43 +0000
Subject: [PATCH 06/32] fix: detect the format of files that are empty, binary
 or start blank

check_format raised IndexError on empty files and on a blank first line and
UnicodeDecodeError on binary files, where UnknownFormat is documented (or, for
valid files that start with a blank line, no error at all).
---
 pytiled_parser/util.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 45de44e..05dc64d 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -37,12 +37,15 @@ def parse_color(color: str) -> Color:
 
 
 def check_format(file_path: Path) -> str:
-    with open(file_path) as file:
-        line = file.readline().rstrip().strip()
-        if line[0] == "<":
-            return "tmx"
-        else:
-            return "json"
+    # Both formats may start with blank lines. This reads bytes so that it works for any
+    # file, whatever is not XML is left to the JSON parser to accept or reject.
+    with open(file_path, "rb") as file:
+        for line in file:
+            line = line.strip()
+            if line:
+                return "tmx" if line.startswith(b"<") else "json"
+
+    return "json"
 
 
 def load_object_template(file_path: Path) -> Any:
-- 
2.43.0


From 3dce723676838ccf9386865cdc937c39123e5b6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:45 +0000
Subject: [PATCH 07/32] fix: raise UnknownFormat for an unknown tileset format
 in TMX maps

check_format only ever answers "tmx" or "json", so the branch raising
UnknownFormat was dead and a JSONDecodeError escaped instead, unlike for JSON
maps.
---
 pytiled_parser/parsers/tmx/tiled_map.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index aa246f5..ca55708 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -42,16 +42,20 @@ def parse(file: Path) -> TiledMap:
                         int(raw_tileset.attrib["firstgid"]),
                         external_path=tileset_path.parent,
                     )
-                elif parser == "json":
-                    tilesets[int(raw_tileset.attrib["firstgid"])] = parse_json_tileset(
-                        json.load(tileset_file),
-                        int(raw_tileset.attrib["firstgid"]),
-                        external_path=tileset_path.parent,
-                    )
                 else:
-                    raise UnknownFormat(
-                        "Unkown Tileset format, please use either the TSX or JSON format."
-                    )
+                    try:
+                        tilesets[
+                            int(raw_tileset.attrib["firstgid"])
+                        ] = parse_json_tileset(
+                            json.load(tileset_file),
+                            int(raw_tileset.attrib["firstgid"]),
+                            external_path=tileset_path.parent,
+                        )
+                    except ValueError:
+                        raise UnknownFormat(
+                            "Unknown Tileset Format, please use either the TSX or JSON format. "
+                            "This message could also mean your tileset file is invalid or corrupted."
+                        )
 
         else:
             # Is an embedded Tileset
-- 
2.43.0


From 343bdc8a13552225d7bdacd2f534d365e7ef0b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 08/32] fix: read all files as UTF-8

Tiled always writes UTF-8, but files were opened with the locale encoding, so
non-ASCII text was garbled or failed to load where that is something else (on
Windows, or under the C locale).
---
 pytiled_parser/parser.py                 | 4 ++--
 pytiled_parser/parsers/json/tiled_map.py | 4 ++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 4 ++--
 pytiled_parser/util.py                   | 6 +++---
 pytiled_parser/world.py                  | 2 +-
 5 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/pytiled_parser/parser.py b/pytiled_parser/parser.py
index 22918ec..05ffb1d 100644
--- a/pytiled_parser/parser.py
+++ b/pytiled_parser/parser.py
@@ -50,12 +50,12 @@ def parse_tileset(file: Path) -> Tileset:
     parser = check_format(file)
 
     if parser == "tmx":
-        with open(file) as map_file:
+        with open(file, encoding="utf-8") as map_file:
             raw_tileset = etree.parse(map_file).getroot()
         return tmx_tileset_parse(raw_tileset, 1)
     else:
         try:
-            with open(file) as my_file:
+            with open(file, encoding="utf-8") as my_file:
                 raw_tileset = json.load(my_file)
             return json_tileset_parse(raw_tileset, 1)
         except ValueError:
diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index a5113f5..f2ba2cf 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -64,7 +64,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_tiled_map = json.load(map_file)
 
     parent_dir = file.parent
@@ -77,7 +77,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as raw_tileset_file:
+            with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(raw_tileset_file).getroot()
                     tilesets[raw_tileset["firstgid"]] = parse_tmx_tileset(
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index ca55708..fd2b371 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -21,7 +21,7 @@ def parse(file: Path) -> TiledMap:
     Returns:
         TiledMap: A parsed TiledMap.
     """
-    with open(file) as map_file:
+    with open(file, encoding="utf-8") as map_file:
         raw_map = etree.parse(map_file).getroot()
 
     parent_dir = file.parent
@@ -34,7 +34,7 @@ def parse(file: Path) -> TiledMap:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
             parser = check_format(tileset_path)
-            with open(tileset_path) as tileset_file:
+            with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
                     raw_tileset_external = etree.parse(tileset_file).getroot()
                     tilesets[int(raw_tileset.attrib["firstgid"])] = parse_tmx_tileset(
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 05dc64d..6d5a4d7 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -55,7 +55,7 @@ def load_object_template(file_path: Path) -> Any:
     new_tileset_path = None
 
     if template_format == "tmx":
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = etree.parse(template_file).getroot()
 
             tileset_element = template.find("./tileset")
@@ -64,7 +64,7 @@ def load_object_template(file_path: Path) -> Any:
                 new_tileset = load_object_tileset(tileset_path)
                 new_tileset_path = tileset_path.parent
     else:
-        with open(file_path) as template_file:
+        with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
@@ -79,7 +79,7 @@ def load_object_tileset(file_path: Path) -> Any:
 
     new_tileset = None
 
-    with open(file_path) as tileset_file:
+    with open(file_path, encoding="utf-8") as tileset_file:
         if tileset_format == "tmx":
             new_tileset = etree.parse(tileset_file).getroot()
         else:
diff --git a/pytiled_parser/world.py b/pytiled_parser/world.py
index 67214a6..a6ef88d 100644
--- a/pytiled_parser/world.py
+++ b/pytiled_parser/world.py
@@ -110,7 +110,7 @@ def parse_world(file: Path) -> World:
         World: A properly parsed [World][pytiled_parser.world.World]
     """
 
-    with open(file) as world_file:
+    with open(file, encoding="utf-8") as world_file:
         raw_world = json.load(world_file)
 
     parent_dir = file.parent
-- 
2.43.0


From a62813f227eec2fba987928e160f59e2ed55fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 09/32] fix: parse empty tile layers of infinite TMX maps

Tiled writes an empty data element for a tile layer of an infinite map that has
no tiles yet, which raised an exception. The result is the same as for JSON,
an empty list of chunks.
---
 pytiled_parser/parsers/tmx/layer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index f1a9036..682786b 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -231,7 +231,10 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
             compression = data_element.attrib["compression"]
 
         raw_chunks = data_element.findall("chunk")
-        if not raw_chunks:
+        if not raw_chunks and not (data_element.text or "").strip():
+            # A layer of an infinite map on which nothing has been painted yet
+            tile_layer.chunks = []
+        elif not raw_chunks:
             if encoding and encoding != "csv":
                 tile_layer.data = _decode_tile_layer_data(
                     data=data_element.text,  # type: ignore
-- 
2.43.0


From 216871ea76339bbfe2f0f95a45b8ff3d36b8a380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:51 +0000
Subject: [PATCH 10/32] fix: read multi-line string properties from TMX

Tiled stores strings that contain newlines as the text of the property element
instead of in the value attribute, such properties were dropped.
---
 pytiled_parser/parsers/tmx/properties.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 1b20e3d..278d8bb 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -12,11 +12,14 @@ def parse(raw_properties: etree.Element) -> Properties:
     for raw_property in raw_properties.findall("property"):
         type_ = raw_property.attrib.get("type")
 
-        if "value" not in raw_property.attrib:
+        if "value" in raw_property.attrib:
+            value_ = raw_property.attrib["value"]
+        elif type_ is None or type_ == "string":
+            # Strings which contain newlines are stored as the text of the element
+            value_ = raw_property.text or ""
+        else:
             continue
 
-        value_ = raw_property.attrib["value"]
-
         if type_ == "file":
             value = Path(value_)
         elif type_ == "color":
-- 
2.43.0


From 84cb3bcffe699b842d8cf7e3ca6f4d52cf9d8007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:13 +0000
Subject: [PATCH 11/32] fix: read TMX tile data that is stored as tile elements

The XML tile layer format (no encoding, one <tile> element per cell) is part of
the TMX format but raised a ValueError.
---
 pytiled_parser/parsers/tmx/layer.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 682786b..6109ab9 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -109,6 +109,18 @@ def _decode_tile_layer_data(
     return _convert_raw_tile_layer_data(tile_grid, layer_width)
 
 
+def _parse_tile_elements(raw_data: etree.Element) -> List[int]:
+    """Read tile data which is stored as one <tile> element per cell.
+
+    Args:
+        raw_data: XML Element of a layer's data or of a chunk
+
+    Returns:
+        List[int]: The global tile IDs, 0 where a tile element has no gid
+    """
+    return [int(tile.attrib.get("gid", 0)) for tile in raw_data.findall("tile")]
+
+
 def _parse_chunk(
     raw_chunk: etree.Element,
     encoding: Optional[str] = None,
@@ -129,6 +141,10 @@ def _parse_chunk(
         data = _decode_tile_layer_data(
             raw_chunk.text, compression, int(raw_chunk.attrib["width"])  # type: ignore
         )
+    elif raw_chunk.find("tile") is not None:
+        data = _convert_raw_tile_layer_data(
+            _parse_tile_elements(raw_chunk), int(raw_chunk.attrib["width"])
+        )
     else:
         data = _convert_raw_tile_layer_data(
             [int(v.strip()) for v in raw_chunk.text.split(",")],  # type: ignore
@@ -231,7 +247,12 @@ def _parse_tile_layer(raw_layer: etree.Element) -> TileLayer:
             compression = data_element.attrib["compression"]
 
         raw_chunks = data_element.findall("chunk")
-        if not raw_chunks and not (data_element.text or "").strip():
+        if data_element.find("tile") is not None:
+            tile_layer.data = _convert_raw_tile_layer_data(
+                _parse_tile_elements(data_element),
+                int(raw_layer.attrib["width"]),
+            )
+        elif not raw_chunks and not (data_element.text or "").strip():
             # A layer of an infinite map on which nothing has been painted yet
             tile_layer.chunks = []
         elif not raw_chunks:
-- 
2.43.0


From 212e858f5df7f48a99fc58852cffead7d448022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:16 +0000
Subject: [PATCH 12/32] fix: read object reference properties from TMX as
 numbers

They hold the id of an object. JSON yields the number, TMX yielded a string.
---
 pytiled_parser/parsers/tmx/properties.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pytiled_parser/parsers/tmx/properties.py b/pytiled_parser/parsers/tmx/properties.py
index 278d8bb..0871b84 100644
--- a/pytiled_parser/parsers/tmx/properties.py
+++ b/pytiled_parser/parsers/tmx/properties.py
@@ -26,6 +26,8 @@ def parse(raw_properties: etree.Element) -> Properties:
             value = parse_color(value_)
         elif type_ == "int" or type_ == "float":
             value = float(value_)
+        elif type_ == "object":
+            value = int(value_)
         elif type_ == "bool":
             if value_ == "true":
                 value = True
-- 
2.43.0


From 36f1dc61bb48ce8838f0ae4d5f5735bd99809476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:18 +0000
Subject: [PATCH 13/32] fix: parse TMX objects of which only the width or
 height is not 0

width and height are optional independently of each other. A width alone raised
KeyError and a height alone was ignored.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 711664e..0d4da2d 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -34,10 +34,10 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         ),
     )
 
-    if raw_object.attrib.get("width") is not None:
-        common.size = Size(
-            float(raw_object.attrib["width"]), float(raw_object.attrib["height"])
-        )
+    common.size = Size(
+        float(raw_object.attrib.get("width", 0)),
+        float(raw_object.attrib.get("height", 0)),
+    )
 
     if raw_object.attrib.get("visible") is not None:
         common.visible = bool(int(raw_object.attrib["visible"]))
-- 
2.43.0


From 42b3c4137530f2fdb8a3cbce89d429b53973f8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:20 +0000
Subject: [PATCH 14/32] fix: parse layers which have an offset on one axis only

offsetx and offsety are optional independently of each other and default to 0.
offsetx alone raised KeyError and offsety alone was ignored.
---
 pytiled_parser/parsers/json/layer.py | 5 +++--
 pytiled_parser/parsers/tmx/layer.py  | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 5f8208e..05db14c 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -228,8 +228,9 @@ def _parse_common(raw_layer: RawLayer) -> Layer:
     if raw_layer.get("width") is not None:
         common.size = Size(raw_layer["width"], raw_layer["height"])
 
-    if raw_layer.get("offsetx") is not None:
-        common.offset = OrderedPair(raw_layer["offsetx"], raw_layer["offsety"])
+    common.offset = OrderedPair(
+        raw_layer.get("offsetx", 0), raw_layer.get("offsety", 0)
+    )
 
     if raw_layer.get("properties") is not None:
         common.properties = parse_properties(raw_layer["properties"])
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 6109ab9..3d8fa55 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -186,10 +186,10 @@ def _parse_common(raw_layer: etree.Element) -> Layer:
     if raw_layer.attrib.get("id") is not None:
         common.id = int(raw_layer.attrib["id"])
 
-    if raw_layer.attrib.get("offsetx") is not None:
-        common.offset = OrderedPair(
-            float(raw_layer.attrib["offsetx"]), float(raw_layer.attrib["offsety"])
-        )
+    common.offset = OrderedPair(
+        float(raw_layer.attrib.get("offsetx", 0)),
+        float(raw_layer.attrib.get("offsety", 0)),
+    )
 
     properties_element = raw_layer.find("./properties")
     if properties_element is not None:
-- 
2.43.0


From 5f4ae7d991826ec678db91dc663f0a6e75620ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:23 +0000
Subject: [PATCH 15/32] fix: do not require the size of images in TMX tilesets

The width and height of an image are optional in TMX, and the JSON parser
accepts tilesets without them.
---
 pytiled_parser/parsers/tmx/tileset.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index 5d788af..e288097 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -106,10 +106,13 @@ def _parse_tile(raw_tile: etree.Element, external_path: Optional[Path] = None) -
         else:
             tile.image = Path(image_element.attrib["source"])
 
-        tile.image_width = int(image_element.attrib["width"])
-        tile.width = tile.image_width
-        tile.image_height = int(image_element.attrib["height"])
-        tile.height = tile.image_height
+        if image_element.attrib.get("width") is not None:
+            tile.image_width = int(image_element.attrib["width"])
+            tile.width = tile.image_width
+
+        if image_element.attrib.get("height") is not None:
+            tile.image_height = int(image_element.attrib["height"])
+            tile.height = tile.image_height
 
     if raw_tile.attrib.get("x") is not None:
         tile.x = int(raw_tile.attrib["x"])
@@ -178,8 +181,11 @@ def parse(
         else:
             tileset.image = Path(image_element.attrib["source"])
 
-        tileset.image_width = int(image_element.attrib["width"])
-        tileset.image_height = int(image_element.attrib["height"])
+        if image_element.attrib.get("width") is not None:
+            tileset.image_width = int(image_element.attrib["width"])
+
+        if image_element.attrib.get("height") is not None:
+            tileset.image_height = int(image_element.attrib["height"])
 
         if image_element.attrib.get("trans") is not None:
             my_string = image_element.attrib["trans"]
-- 
2.43.0


From 62b632632f5e629524f0fa673e4301236f2d5a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:25 +0000
Subject: [PATCH 16/32] fix: accept JSON tile layers with csv encoding or
 without compression

Both are optional in the JSON format: encoding may be "csv" (the default, data is
an array) and compression defaults to empty. The former raised TypeError, the
latter KeyError.
---
 pytiled_parser/parsers/json/layer.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 05db14c..833ae46 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -276,16 +276,18 @@ def _parse_tile_layer(raw_layer: RawLayer) -> TileLayer:
         for chunk in raw_layer["chunks"]:
             if raw_layer.get("encoding") is not None:
                 tile_layer.chunks.append(
-                    _parse_chunk(chunk, raw_layer["encoding"], raw_layer["compression"])
+                    _parse_chunk(
+                        chunk, raw_layer["encoding"], raw_layer.get("compression", "")
+                    )
                 )
             else:
                 tile_layer.chunks.append(_parse_chunk(chunk))
 
     if raw_layer.get("data") is not None:
-        if raw_layer.get("encoding") is not None:
+        if raw_layer.get("encoding") == "base64":
             tile_layer.data = _decode_tile_layer_data(
                 data=cast(str, raw_layer["data"]),
-                compression=raw_layer["compression"],
+                compression=raw_layer.get("compression", ""),
                 layer_width=raw_layer["width"],
             )
         else:
-- 
2.43.0


From 663d442e7e58c5ca7ff43a6691943d904906c65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:27 +0000
Subject: [PATCH 17/32] fix: reject malformed colors instead of misreading them

Any first character was stripped from strings of odd length, and int() accepts
signs, so strings like "x123456" or "#-1-1-1" became colors, the latter with
negative channels.
---
 pytiled_parser/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 6d5a4d7..b23f8a8 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -2,6 +2,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
+from string import hexdigits
 from typing import Any
 
 from pytiled_parser.common_types import Color
@@ -17,11 +18,12 @@ def parse_color(color: str) -> Color:
     Returns:
         :Color: Color object in the format that PyTiled understands.
     """
-    # the actual part we care about is always an even number
-    if len(color) % 2:
-        # strip initial '#' character
+    if color.startswith("#"):
         color = color[1:]
 
+    if not set(color) <= set(hexdigits):
+        raise ValueError("Improperly formatted color passed to parse_color")
+
     if len(color) == 6:
         # full opacity if no alpha specified
         return Color(int(color[0:2], 16), int(color[2:4], 16), int(color[4:6], 16), 255)
-- 
2.43.0


From d6ea4eba896eff98c257513b3cc147c8ae1e2b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:00 +0000
Subject: [PATCH 18/32] fix: let instances override their object template in
 JSON maps

The template's values were written over those of the instance, so everything
that an instance overrides (name, size, text, ...) was lost, and a template with
custom properties replaced those of the instance instead of adding to them.
---
 pytiled_parser/parsers/json/tiled_object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 33cae00..10cab97 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -317,8 +317,11 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
+            # Whatever the instance defines itself takes precedence over the template
             for key in loaded_template:
-                if key != "id":
+                if key == "properties" and key in raw_object:
+                    raw_object[key] = loaded_template[key] + raw_object[key]
+                elif key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
             raise NotImplementedError(
-- 
2.43.0


From ed9ec18267ac35ca31ed7113057877662db92625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 19/32] fix: apply all overrides of object template instances
 in TMX maps

Custom properties of an instance were ignored if the template had any, and the
text or shape of an instance was never used.
---
 pytiled_parser/parsers/tmx/tiled_object.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 0d4da2d..f6c70a4 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -277,9 +277,15 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
                         continue
                     new_object.attrib[key] = val
 
-                properties_element = raw_object.find("./properties")
-                if properties_element is not None:
-                    new_object.append(properties_element)
+                for child in raw_object:
+                    inherited = new_object.find(child.tag)
+                    if inherited is not None and child.tag == "properties":
+                        # Properties are merged, those of the instance win
+                        inherited.extend(child)
+                    else:
+                        if inherited is not None:
+                            new_object.remove(inherited)
+                        new_object.append(child)
 
                 raw_object = new_object
         elif isinstance(template, dict):
-- 
2.43.0


From 41b3a5b42f65e9471cb9c068963c62d196c1f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:04 +0000
Subject: [PATCH 20/32] fix: do not rebase the gid of template instances which
 have their own tile

A gid in the map refers to the tilesets of the map, only one that comes from the
template refers to the template's tileset.
---
 pytiled_parser/parsers/json/tiled_object.py | 5 +++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 10cab97..f855547 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -315,6 +315,11 @@ def parse(
         template_path = Path(parent_dir / raw_object["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.get("gid"):
+            # The instance has its own tile, which is one of the map's tilesets
+            new_tileset = None
+            new_tileset_path = None
+
         if isinstance(template, dict):
             loaded_template = template["object"]
             # Whatever the instance defines itself takes precedence over the template
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index f6c70a4..8b91844 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -269,6 +269,11 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         template_path = Path(parent_dir / raw_object.attrib["template"])
         template, new_tileset, new_tileset_path = load_object_template(template_path)
 
+        if raw_object.attrib.get("gid"):
+            # The instance has its own tile, which is one of the map's tilesets
+            new_tileset = None
+            new_tileset_path = None
+
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
-- 
2.43.0


From 9d4139c4101886c8a0ef9d0700f24a13a7977d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 21/32] fix: resolve template tilesets of objects inside of
 group layers

Only object layers at the top level were searched, the gid of tile objects in
groups was left relative to the template and the tileset was never loaded.
---
 pytiled_parser/parsers/json/tiled_map.py |  8 +++-----
 pytiled_parser/parsers/tmx/tiled_map.py  |  8 +++-----
 pytiled_parser/util.py                   | 11 ++++++++++-
 3 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index f2ba2cf..4c628c5 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, find_object_layers, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -125,9 +125,7 @@ def parse(file: Path) -> TiledMap:
         version=version,
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in find_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
@@ -141,7 +139,7 @@ def parse(file: Path) -> TiledMap:
         # tilesets have been loaded in already, and use them if they have been, but then
         # be able to dynamically add-in tilesets after having parsed the rest of the map.
 
-        for tiled_object in my_layer.tiled_objects:  # type: ignore
+        for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
                     already_loaded = None
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index fd2b371..6785d2f 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, parse_color
+from pytiled_parser.util import check_format, find_object_layers, parse_color
 
 
 def parse(file: Path) -> TiledMap:
@@ -85,9 +85,7 @@ def parse(file: Path) -> TiledMap:
         version=raw_map.attrib["version"],
     )
 
-    layers = [layer for layer in map_.layers if hasattr(layer, "tiled_objects")]
-
-    for my_layer in layers:
+    for my_layer in find_object_layers(map_.layers):
         # Mypy extremely hates what is going on in this whole block
         # For some reason an ignore on this first for loop is causing it
         # to just not care about any of the problems in here.
@@ -101,7 +99,7 @@ def parse(file: Path) -> TiledMap:
         # tilesets have been loaded in already, and use them if they have been, but then
         # be able to dynamically add-in tilesets after having parsed the rest of the map.
 
-        for tiled_object in my_layer.tiled_objects:  # type: ignore
+        for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
                     already_loaded = None
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index b23f8a8..1b7f2cd 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -3,7 +3,7 @@ import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
 from string import hexdigits
-from typing import Any
+from typing import Any, Iterable, Iterator
 
 from pytiled_parser.common_types import Color
 
@@ -50,6 +50,15 @@ def check_format(file_path: Path) -> str:
     return "json"
 
 
+def find_object_layers(layers: Iterable[Any]) -> Iterator[Any]:
+    """Yield all layers that have objects, including those inside of groups."""
+    for layer in layers:
+        if hasattr(layer, "tiled_objects"):
+            yield layer
+        elif hasattr(layer, "layers"):
+            yield from find_object_layers(layer.layers or [])
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From 0e31c63567d2a36549be1ad5ae33abdded5283d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:09 +0000
Subject: [PATCH 22/32] fix: give template tilesets a free range of global tile
 IDs

The first gid was computed from the tile count of the last tileset, which fails
if there is none, overlaps if its tile IDs have gaps and replaces it if it is
empty.
---
 pytiled_parser/parsers/json/tiled_map.py |  6 ++----
 pytiled_parser/parsers/tmx/tiled_map.py  |  6 ++----
 pytiled_parser/util.py                   | 12 +++++++++++-
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 4c628c5..17ccafb 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -15,7 +15,7 @@ from pytiled_parser.parsers.json.tileset import RawTileSet
 from pytiled_parser.parsers.json.tileset import parse as parse_json_tileset
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, find_object_layers, parse_color
+from pytiled_parser.util import check_format, find_object_layers, next_firstgid, parse_color
 
 RawTilesetMapping = TypedDict("RawTilesetMapping", {"firstgid": int, "source": str})
 
@@ -149,9 +149,7 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = next_firstgid(map_.tilesets)
                         map_.tilesets[new_firstgid] = parse_json_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 6785d2f..d980013 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -9,7 +9,7 @@ from pytiled_parser.parsers.tmx.layer import parse as parse_layer
 from pytiled_parser.parsers.tmx.properties import parse as parse_properties
 from pytiled_parser.parsers.tmx.tileset import parse as parse_tmx_tileset
 from pytiled_parser.tiled_map import TiledMap, TilesetDict
-from pytiled_parser.util import check_format, find_object_layers, parse_color
+from pytiled_parser.util import check_format, find_object_layers, next_firstgid, parse_color
 
 
 def parse(file: Path) -> TiledMap:
@@ -109,9 +109,7 @@ def parse(file: Path) -> TiledMap:
                             break
 
                     if not already_loaded:
-                        highest_firstgid = max(map_.tilesets.keys())
-                        last_tileset_count = map_.tilesets[highest_firstgid].tile_count
-                        new_firstgid = highest_firstgid + last_tileset_count
+                        new_firstgid = next_firstgid(map_.tilesets)
                         map_.tilesets[new_firstgid] = parse_tmx_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 1b7f2cd..476f292 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -3,7 +3,7 @@ import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
 from string import hexdigits
-from typing import Any, Iterable, Iterator
+from typing import Any, Dict, Iterable, Iterator
 
 from pytiled_parser.common_types import Color
 
@@ -59,6 +59,16 @@ def find_object_layers(layers: Iterable[Any]) -> Iterator[Any]:
             yield from find_object_layers(layer.layers or [])
 
 
+def next_firstgid(tilesets: Dict[int, Any]) -> int:
+    """Find the first global tile ID that comes after all of the given tilesets."""
+    next_gid = 1
+    for firstgid, tileset in tilesets.items():
+        # The tile IDs of image collections can have gaps and exceed the tile count
+        last_tile_id = max(tileset.tiles or [0])
+        next_gid = max(next_gid, firstgid + max(tileset.tile_count, last_tile_id + 1))
+    return next_gid
+
+
 def load_object_template(file_path: Path) -> Any:
     template_format = check_format(file_path)
 
-- 
2.43.0


From 6218676de01600d3c1e145285c5a2860f2e722c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 23/32] fix: load template tilesets of either format in both
 map formats

An object template may use a TSX or a JSON tileset like a map does, but one of
the other format than the map raised TypeError or AttributeError.
---
 pytiled_parser/parsers/json/tiled_map.py | 8 ++++++--
 pytiled_parser/parsers/tmx/tiled_map.py  | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 17ccafb..78476d3 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -144,13 +144,17 @@ def parse(file: Path) -> TiledMap:
                 if tiled_object.new_tileset is not None:
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset["name"]:
+                        if val.name == tiled_object.new_tileset.get("name"):
                             already_loaded = val
                             break
 
                     if not already_loaded:
                         new_firstgid = next_firstgid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_json_tileset(
+                        if isinstance(tiled_object.new_tileset, dict):
+                            parse_tileset = parse_json_tileset
+                        else:
+                            parse_tileset = parse_tmx_tileset
+                        map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index d980013..b16ed31 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -104,13 +104,17 @@ def parse(file: Path) -> TiledMap:
                 if tiled_object.new_tileset is not None:
                     already_loaded = None
                     for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.attrib["name"]:
+                        if val.name == tiled_object.new_tileset.get("name"):
                             already_loaded = val
                             break
 
                     if not already_loaded:
                         new_firstgid = next_firstgid(map_.tilesets)
-                        map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                        if isinstance(tiled_object.new_tileset, dict):
+                            parse_tileset = parse_json_tileset
+                        else:
+                            parse_tileset = parse_tmx_tileset
+                        map_.tilesets[new_firstgid] = parse_tileset(
                             tiled_object.new_tileset,
                             new_firstgid,
                             tiled_object.new_tileset_path,
-- 
2.43.0


From fc956e58758e184dbc9dee3ccd206211bbea1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:45 +0000
Subject: [PATCH 24/32] fix: tell template tilesets apart by their file instead
 of their name

Names of tilesets need not be unique. If the map had another tileset of the same
name as the one of a template, the template's tile objects showed a tile of that
other tileset.
---
 pytiled_parser/parsers/json/tiled_map.py | 30 +++++++++++++++---------
 pytiled_parser/parsers/tmx/tiled_map.py  | 29 +++++++++++++++--------
 pytiled_parser/util.py                   |  4 ++--
 3 files changed, 40 insertions(+), 23 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 78476d3..3c13be2 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -1,7 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
-from typing import List, Union, cast
+from typing import Dict, List, Union, cast
 
 from typing_extensions import TypedDict
 
@@ -71,11 +71,14 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets: List[Union[RawTileSet, RawTilesetMapping]] = raw_tiled_map["tilesets"]
     tilesets: TilesetDict = {}
+    # The files of the external tilesets, by firstgid
+    tileset_files: Dict[int, Path] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.get("source") is not None:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset["source"])
+            tileset_files[raw_tileset["firstgid"]] = tileset_path.resolve()
             parser = check_format(tileset_path)
             with open(tileset_path, encoding="utf-8") as raw_tileset_file:
                 if parser == "tmx":
@@ -142,23 +145,28 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    new_tileset_file = tiled_object.new_tileset_path.resolve()
                     already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.get("name"):
-                            already_loaded = val
+                    for firstgid, loaded_file in tileset_files.items():
+                        if loaded_file == new_tileset_file:
+                            already_loaded = map_.tilesets[firstgid]
                             break
 
                     if not already_loaded:
                         new_firstgid = next_firstgid(map_.tilesets)
                         if isinstance(tiled_object.new_tileset, dict):
-                            parse_tileset = parse_json_tileset
+                            map_.tilesets[new_firstgid] = parse_json_tileset(
+                                cast(RawTileSet, tiled_object.new_tileset),
+                                new_firstgid,
+                                tiled_object.new_tileset_path.parent,
+                            )
                         else:
-                            parse_tileset = parse_tmx_tileset
-                        map_.tilesets[new_firstgid] = parse_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
+                            map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                                tiled_object.new_tileset,
+                                new_firstgid,
+                                tiled_object.new_tileset_path.parent,
+                            )
+                        tileset_files[new_firstgid] = new_tileset_file
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index b16ed31..c069f11 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -1,6 +1,7 @@
 import json
 import xml.etree.ElementTree as etree
 from pathlib import Path
+from typing import Dict
 
 from pytiled_parser.common_types import OrderedPair, Size
 from pytiled_parser.exception import UnknownFormat
@@ -28,11 +29,14 @@ def parse(file: Path) -> TiledMap:
 
     raw_tilesets = raw_map.findall("./tileset")
     tilesets: TilesetDict = {}
+    # The files of the external tilesets, by firstgid
+    tileset_files: Dict[int, Path] = {}
 
     for raw_tileset in raw_tilesets:
         if raw_tileset.attrib.get("source") is not None:
             # Is an external Tileset
             tileset_path = Path(parent_dir / raw_tileset.attrib["source"])
+            tileset_files[int(raw_tileset.attrib["firstgid"])] = tileset_path.resolve()
             parser = check_format(tileset_path)
             with open(tileset_path, encoding="utf-8") as tileset_file:
                 if parser == "tmx":
@@ -102,23 +106,28 @@ def parse(file: Path) -> TiledMap:
         for tiled_object in my_layer.tiled_objects:
             if hasattr(tiled_object, "new_tileset"):
                 if tiled_object.new_tileset is not None:
+                    new_tileset_file = tiled_object.new_tileset_path.resolve()
                     already_loaded = None
-                    for val in map_.tilesets.values():
-                        if val.name == tiled_object.new_tileset.get("name"):
-                            already_loaded = val
+                    for firstgid, loaded_file in tileset_files.items():
+                        if loaded_file == new_tileset_file:
+                            already_loaded = map_.tilesets[firstgid]
                             break
 
                     if not already_loaded:
                         new_firstgid = next_firstgid(map_.tilesets)
                         if isinstance(tiled_object.new_tileset, dict):
-                            parse_tileset = parse_json_tileset
+                            map_.tilesets[new_firstgid] = parse_json_tileset(
+                                tiled_object.new_tileset,  # type: ignore
+                                new_firstgid,
+                                tiled_object.new_tileset_path.parent,
+                            )
                         else:
-                            parse_tileset = parse_tmx_tileset
-                        map_.tilesets[new_firstgid] = parse_tileset(
-                            tiled_object.new_tileset,
-                            new_firstgid,
-                            tiled_object.new_tileset_path,
-                        )
+                            map_.tilesets[new_firstgid] = parse_tmx_tileset(
+                                tiled_object.new_tileset,
+                                new_firstgid,
+                                tiled_object.new_tileset_path.parent,
+                            )
+                        tileset_files[new_firstgid] = new_tileset_file
                         tiled_object.gid = tiled_object.gid + (new_firstgid - 1)
 
                     else:
diff --git a/pytiled_parser/util.py b/pytiled_parser/util.py
index 476f292..529346c 100644
--- a/pytiled_parser/util.py
+++ b/pytiled_parser/util.py
@@ -83,14 +83,14 @@ def load_object_template(file_path: Path) -> Any:
             if tileset_element is not None:
                 tileset_path = Path(file_path.parent / tileset_element.attrib["source"])
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
     else:
         with open(file_path, encoding="utf-8") as template_file:
             template = json.load(template_file)
             if "tileset" in template:
                 tileset_path = Path(file_path.parent / template["tileset"]["source"])  # type: ignore
                 new_tileset = load_object_tileset(tileset_path)
-                new_tileset_path = tileset_path.parent
+                new_tileset_path = tileset_path
 
     return (template, new_tileset, new_tileset_path)
 
-- 
2.43.0


From b4bd8aa733bc4e6ffacd4d0fc7a38ee91c560603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:01 +0000
Subject: [PATCH 25/32] fix: merge legacy dictionary properties of JSON object
 templates

---
 pytiled_parser/parsers/json/tiled_object.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index f855547..96ab917 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -288,6 +288,17 @@ def _get_parser(raw_object: RawObject) -> Callable[[RawObject], TiledObject]:
     return _parse_rectangle
 
 
+def _merge_properties(template: Any, instance: Any) -> Any:
+    """Combine the raw properties of a template and its instance, those of the instance win.
+
+    Old versions of Tiled store properties as a dictionary instead of as a list.
+    """
+    if isinstance(template, dict) and isinstance(instance, dict):
+        return {**template, **instance}
+
+    return template + instance
+
+
 def parse(
     raw_object: RawObject,
     parent_dir: Optional[Path] = None,
@@ -325,7 +336,9 @@ def parse(
             # Whatever the instance defines itself takes precedence over the template
             for key in loaded_template:
                 if key == "properties" and key in raw_object:
-                    raw_object[key] = loaded_template[key] + raw_object[key]
+                    raw_object[key] = _merge_properties(  # type: ignore
+                        loaded_template[key], raw_object[key]  # type: ignore
+                    )
                 elif key not in raw_object:
                     raw_object[key] = loaded_template[key]  # type: ignore
         else:
-- 
2.43.0


From 19fee776e9ff9c636c8a9cf7b6d5b196759e6566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 26/32] fix: treat JSON properties without a type as strings

Tiled documents "string" as the default of a property's type.
---
 pytiled_parser/parsers/json/properties.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/properties.py b/pytiled_parser/parsers/json/properties.py
index 62b2e17..87b0614 100644
--- a/pytiled_parser/parsers/json/properties.py
+++ b/pytiled_parser/parsers/json/properties.py
@@ -41,9 +41,10 @@ def parse(raw_properties: List[RawProperty]) -> Properties:
             final[name] = value
     else:
         for raw_property in raw_properties:
-            if raw_property["type"] == "file":
+            type_ = raw_property.get("type", "string")
+            if type_ == "file":
                 value = Path(cast(str, raw_property["value"]))
-            elif raw_property["type"] == "color":
+            elif type_ == "color":
                 value = parse_color(cast(str, raw_property["value"]))
             else:
                 value = raw_property["value"]
-- 
2.43.0


From f9c162a71178c36148209f590180144beb61352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 27/32] fix: convert whole-numbered versions of old JSON files
 to str

---
 pytiled_parser/parsers/json/tiled_map.py | 2 +-
 pytiled_parser/parsers/json/tileset.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_map.py b/pytiled_parser/parsers/json/tiled_map.py
index 3c13be2..2bf27ae 100644
--- a/pytiled_parser/parsers/json/tiled_map.py
+++ b/pytiled_parser/parsers/json/tiled_map.py
@@ -107,7 +107,7 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, raw_tileset["firstgid"]
             )
 
-    if isinstance(raw_tiled_map["version"], float):  # pragma: no cover
+    if isinstance(raw_tiled_map["version"], (int, float)):  # pragma: no cover
         version = str(raw_tiled_map["version"])
     else:
         version = raw_tiled_map["version"]
diff --git a/pytiled_parser/parsers/json/tileset.py b/pytiled_parser/parsers/json/tileset.py
index cbbc51d..c15b39e 100644
--- a/pytiled_parser/parsers/json/tileset.py
+++ b/pytiled_parser/parsers/json/tileset.py
@@ -260,7 +260,7 @@ def parse(
         # to keep old versions in the test data and not update them with the
         # rest so I'm excluding this from coverage. In reality it's probably
         # not needed. Tiled hasn't been using floats for the version for a long time
-        if isinstance(raw_tileset["version"], float):  # pragma: no cover
+        if isinstance(raw_tileset["version"], (int, float)):  # pragma: no cover
             tileset.version = str(raw_tileset["version"])
         else:
             tileset.version = raw_tileset["version"]
-- 
2.43.0


From 35e99b3f6e97160db0fe8c329bfaa2bbf3216f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:44 +0000
Subject: [PATCH 28/32] fix: let the class of a template instance win however
 it is spelled

Tiled 1.9 saves the class of objects as "class", other versions as "type". An
instance with "type" of a template with "class" got the class of the template.
---
 pytiled_parser/parsers/json/tiled_object.py | 4 ++++
 pytiled_parser/parsers/tmx/tiled_object.py  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 96ab917..43c7f1a 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -333,6 +333,10 @@ def parse(
 
         if isinstance(template, dict):
             loaded_template = template["object"]
+            if "type" in raw_object:
+                # Versions of Tiled differ in how they spell the class
+                loaded_template.pop("class", None)
+
             # Whatever the instance defines itself takes precedence over the template
             for key in loaded_template:
                 if key == "properties" and key in raw_object:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 8b91844..5595d64 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -277,6 +277,10 @@ def parse(raw_object: etree.Element, parent_dir: Optional[Path] = None) -> Tiled
         if isinstance(template, etree.Element):
             new_object = template.find("./object")
             if new_object is not None:
+                if "type" in raw_object.attrib:
+                    # Versions of Tiled differ in how they spell the class
+                    new_object.attrib.pop("class", None)
+
                 for key, val in raw_object.attrib.items():
                     if key == "template":
                         continue
-- 
2.43.0


From f7583c03ecdd75b7402e8d237ddb353d59496c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:46 +0000
Subject: [PATCH 29/32] fix: merge properties of JSON templates and instances
 of different Tiled versions

Only one of the two files may store its properties as a dictionary.
---
 pytiled_parser/parsers/json/tiled_object.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pytiled_parser/parsers/json/tiled_object.py b/pytiled_parser/parsers/json/tiled_object.py
index 43c7f1a..1c3f3a5 100644
--- a/pytiled_parser/parsers/json/tiled_object.py
+++ b/pytiled_parser/parsers/json/tiled_object.py
@@ -293,10 +293,13 @@ def _merge_properties(template: Any, instance: Any) -> Any:
 
     Old versions of Tiled store properties as a dictionary instead of as a list.
     """
-    if isinstance(template, dict) and isinstance(instance, dict):
-        return {**template, **instance}
+    raw_properties: Any = []
+    for properties in (template, instance):
+        if isinstance(properties, dict):
+            properties = [{"name": k, "value": v} for k, v in properties.items()]
+        raw_properties += properties
 
-    return template + instance
+    return raw_properties
 
 
 def parse(
-- 
2.43.0


From e39a968c6abf707e65ea8b88ca1f5835306b6ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 30/32] fix: refuse tile data in an unknown compression instead
 of misreading it

---
 pytiled_parser/parsers/json/layer.py | 2 ++
 pytiled_parser/parsers/tmx/layer.py  | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/pytiled_parser/parsers/json/layer.py b/pytiled_parser/parsers/json/layer.py
index 833ae46..d891076 100644
--- a/pytiled_parser/parsers/json/layer.py
+++ b/pytiled_parser/parsers/json/layer.py
@@ -144,6 +144,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
diff --git a/pytiled_parser/parsers/tmx/layer.py b/pytiled_parser/parsers/tmx/layer.py
index 3d8fa55..a4bb245 100644
--- a/pytiled_parser/parsers/tmx/layer.py
+++ b/pytiled_parser/parsers/tmx/layer.py
@@ -89,6 +89,8 @@ def _decode_tile_layer_data(
     # See above note at top of module about zstd tests
     elif compression == "zstd":  # pragma: no cover
         unzipped_data = zstd.decompress(unencoded_data)
+    elif compression:
+        raise ValueError(f"Unsupported compression type: {compression}")
     else:
         unzipped_data = unencoded_data
 
-- 
2.43.0


From b9ed88b13ad72c7c762770ee2d0ad72f21b72acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:26 +0000
Subject: [PATCH 31/32] fix: parse TMX maps and tilesets saved by older
 versions of Tiled

---
 pytiled_parser/parsers/tmx/tiled_map.py | 11 ++++++++---
 pytiled_parser/parsers/tmx/tileset.py   |  2 +-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index c069f11..853b3c5 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -67,6 +67,11 @@ def parse(file: Path) -> TiledMap:
                 raw_tileset, int(raw_tileset.attrib["firstgid"])
             )
 
+    # Maps of older versions of Tiled lack this, the infinite flag and the Tiled version
+    next_layer_id = None
+    if raw_map.attrib.get("nextlayerid") is not None:
+        next_layer_id = int(raw_map.attrib["nextlayerid"])
+
     layers = []
     for element in raw_map:
         if element.tag in ["layer", "objectgroup", "imagelayer", "group"]:
@@ -74,14 +79,14 @@ def parse(file: Path) -> TiledMap:
 
     map_ = TiledMap(
         map_file=file,
-        infinite=bool(int(raw_map.attrib["infinite"])),
+        infinite=bool(int(raw_map.attrib.get("infinite", 0))),
         layers=layers,
         map_size=Size(int(raw_map.attrib["width"]), int(raw_map.attrib["height"])),
-        next_layer_id=int(raw_map.attrib["nextlayerid"]),
+        next_layer_id=next_layer_id,
         next_object_id=int(raw_map.attrib["nextobjectid"]),
         orientation=raw_map.attrib["orientation"],
         render_order=raw_map.attrib["renderorder"],
-        tiled_version=raw_map.attrib["tiledversion"],
+        tiled_version=raw_map.attrib.get("tiledversion", ""),
         tile_size=Size(
             int(raw_map.attrib["tilewidth"]), int(raw_map.attrib["tileheight"])
         ),
diff --git a/pytiled_parser/parsers/tmx/tileset.py b/pytiled_parser/parsers/tmx/tileset.py
index e288097..f2e654c 100644
--- a/pytiled_parser/parsers/tmx/tileset.py
+++ b/pytiled_parser/parsers/tmx/tileset.py
@@ -139,7 +139,7 @@ def parse(
         tile_count=int(raw_tileset.attrib["tilecount"]),
         tile_width=int(raw_tileset.attrib["tilewidth"]),
         tile_height=int(raw_tileset.attrib["tileheight"]),
-        columns=int(raw_tileset.attrib["columns"]),
+        columns=int(raw_tileset.attrib.get("columns", 1)),
         firstgid=firstgid,
     )
 
-- 
2.43.0


From 63505ecde28679e2ebabdf9964f078a075a2fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 32/32] fix: test for the presence of a properties element, not
 its truth value

Testing the truth value of an element is deprecated and raises when
warnings are errors. Empty property lists now read as in the JSON format.
---
 pytiled_parser/parsers/tmx/tiled_map.py    | 2 +-
 pytiled_parser/parsers/tmx/tiled_object.py | 2 +-
 pytiled_parser/parsers/tmx/wang_set.py     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pytiled_parser/parsers/tmx/tiled_map.py b/pytiled_parser/parsers/tmx/tiled_map.py
index 853b3c5..f251de3 100644
--- a/pytiled_parser/parsers/tmx/tiled_map.py
+++ b/pytiled_parser/parsers/tmx/tiled_map.py
@@ -150,7 +150,7 @@ def parse(file: Path) -> TiledMap:
         map_.hex_side_length = int(raw_map.attrib["hexsidelength"])
 
     properties_element = raw_map.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         map_.properties = parse_properties(properties_element)
 
     if raw_map.attrib.get("staggeraxis") is not None:
diff --git a/pytiled_parser/parsers/tmx/tiled_object.py b/pytiled_parser/parsers/tmx/tiled_object.py
index 5595d64..928b42f 100644
--- a/pytiled_parser/parsers/tmx/tiled_object.py
+++ b/pytiled_parser/parsers/tmx/tiled_object.py
@@ -55,7 +55,7 @@ def _parse_common(raw_object: etree.Element) -> TiledObject:
         common.class_ = raw_object.attrib["class"]
 
     properties_element = raw_object.find("./properties")
-    if properties_element:
+    if properties_element is not None:
         common.properties = parse_properties(properties_element)
 
     return common
diff --git a/pytiled_parser/parsers/tmx/wang_set.py b/pytiled_parser/parsers/tmx/wang_set.py
index 0789cb1..3401311 100644
--- a/pytiled_parser/parsers/tmx/wang_set.py
+++ b/pytiled_parser/parsers/tmx/wang_set.py
@@ -38,7 +38,7 @@ def _parse_wang_color(raw_wang_color: etree.Element) -> WangColor:
         wang_color.class_ = raw_wang_color.attrib["class"]
 
     properties = raw_wang_color.find("./properties")
-    if properties:
+    if properties is not None:
         wang_color.properties = parse_properties(properties)
 
     return wang_color
@@ -74,7 +74,7 @@ def parse(raw_wangset: etree.Element) -> WangSet:
         wangset.class_ = raw_wangset.attrib["class"]
 
     properties = raw_wangset.find("./properties")
-    if properties:
+    if properties is not None:
         wangset.properties = parse_properties(properties)
 
     return wangset
-- 
2.43.0

