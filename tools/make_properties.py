"""Writes /verif/properties.jsonl (kept as a script so the wording is reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=["pytiled_parser/"+f for f in files],
            state=[dict(name=a, meaning=b, where="pytiled_parser/"+c) for a, b, c in state],
            mechanism=[dict(name=a, where="pytiled_parser/"+b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

J, T = "parsers/json/", "parsers/tmx/"

p("C01", "Tile data of finite layers is decoded exactly",
  "The rows of every tile layer of a finite map are exactly the grid of global tile IDs stored in the file: as many rows as the layer is high, each as long as the layer's own width, in row-major order, with every ID (0 up to 2**32-1, flip bits included) bit for bit. This holds in TMX and JSON alike and does not depend on the storage chosen: plain list/CSV/tile elements, or base64 that is uncompressed, zlib- or gzip-compressed at any level.",
  ["inputs"], "every grid size, every 32-bit cell value, every encoding/compression/level, both formats, any number of layers with different sizes",
  "Tests hold five fixed 8x6 grids with IDs 1..48, so one-byte values, one aspect ratio, one shape; carries across bytes, flip bits, 1-wide or 1-high layers and non-square ordering are not reached.",
  [J+"layer.py", T+"layer.py"],
  [("byte-to-int reassembly and decompression", J+"layer.py:_decode_tile_layer_data"), ("row splitting", J+"layer.py:_convert_raw_tile_layer_data"), ("TMX twins", T+"layer.py:_decode_tile_layer_data,_convert_raw_tile_layer_data,_parse_tile_layer")],
  ["TileLayer.data of parse_map(file).layers"])

p("C02", "Chunks of infinite maps are decoded exactly",
  "Every tile layer of an infinite map yields exactly the chunks stored in the file, in file order, each with its own coordinates (negative ones included), its own width and height, and rows of global tile IDs decoded exactly as for finite layers under every encoding and compression. A layer with no chunks at all (nothing painted yet) parses to a layer without chunks instead of failing. A layer with chunks carries no finite grid, and a finite layer carries no chunks.",
  ["inputs"], "every list of chunks (0..n, any sizes, any signed coordinates), every encoding/compression, both formats",
  "Tests have two infinite maps with two 4x8 or 16x16 chunks at non-negative coordinates; empty layers, non-uniform chunk sizes and negative positions are never loaded.",
  [J+"layer.py", T+"layer.py", "layer.py"],
  [("chunk parsing", J+"layer.py:_parse_chunk"), ("chunk parsing", T+"layer.py:_parse_chunk"), ("chunks or grid choice", T+"layer.py:_parse_tile_layer")],
  ["TileLayer.chunks / TileLayer.data"])

p("C03", "The layer tree keeps order, nesting and completeness",
  "The layers of a map, and the layers of every group at any nesting depth, are exactly the file's layers in the file's (draw) order, each appearing once, at its own level only and as the class matching its kind. Objects that belong to something else, such as the collision shapes of a tileset's tiles, never show up as layers of the map.",
  ["inputs"], "every ordered tree of tile, object, image and group layers, with arbitrary interleavings of kinds, duplicate names and any nesting depth, in both formats, next to embedded or external tilesets with collision shapes",
  "The only nested layer in the tests is one object layer in one group, parsed below parse_map; ordering of mixed kinds inside a group and parse_map on maps with groups or embedded tilesets with collision shapes are never exercised.",
  [J+"layer.py", T+"layer.py", T+"tiled_map.py", J+"tiled_map.py"],
  [("dispatch on layer type", J+"layer.py:parse"), ("dispatch on tag", T+"layer.py:parse"), ("group recursion", T+"layer.py:_parse_group_layer"), ("group recursion", J+"layer.py:_parse_group_layer"), ("top-level layer enumeration", T+"tiled_map.py:parse")],
  ["parse_map(file).layers, LayerGroup.layers"])

p("C04", "Layer attributes survive parsing for every layer kind",
  "For every layer of every kind, the parsed name, id, class, opacity, visibility, pixel offset, parallax factor, tint colour, repeat flags and (for tile layers) size equal what the file says, with x/y pairs never swapped or mixed and an axis that is not given taking its documented default. Object layers also keep their draw order, image layers their image path and transparent colour, and JSON infinite layers their start coordinates.",
  ["inputs"], "every combination of present/absent attributes with arbitrary values on every layer kind at every depth, both formats",
  "Tests fix a handful of combinations (no opacity below 1, no hidden layer, no class on a layer), so attribute-specific or kind-specific losses go unseen.",
  [J+"layer.py", T+"layer.py", "layer.py"],
  [("common attributes", J+"layer.py:_parse_common"), ("common attributes", T+"layer.py:_parse_common"), ("kind-specific attributes", T+"layer.py:_parse_object_layer,_parse_image_layer")],
  ["Layer attributes of parse_map(file).layers"])

p("C05", "Map objects keep their kind, geometry and identity",
  "Every object of every object layer (and of every tile's collision layer) is returned once, in file order, as the class of its kind (rectangle, ellipse, point, polygon, polyline, text or tile), with id, name, class, position, size, rotation, visibility, polygon/polyline points in order, and tile gid (flip bits included) equal to the file's values. A dimension that is not given is 0 whether or not the other one is given.",
  ["inputs"], "every list of objects of all kinds with arbitrary finite coordinates, sizes, rotations, names and 32-bit gids, in both formats and legacy/modern class spelling",
  "Tests parse one hand-written object of each kind; negative, fractional, exponent-form or degenerate geometry, one-sided sizes, long point lists and flip bits are not sampled.",
  [J+"tiled_object.py", T+"tiled_object.py", "tiled_object.py"],
  [("kind dispatch", J+"tiled_object.py:_get_parser,parse"), ("kind dispatch", T+"tiled_object.py:_get_parser,parse"), ("common attributes", J+"tiled_object.py:_parse_common"), ("common attributes", T+"tiled_object.py:_parse_common")],
  ["ObjectLayer.tiled_objects"])

p("C06", "Text objects keep their text and every style setting",
  "A text object carries exactly the text of the file (any Unicode, line breaks and leading or trailing blanks included, possibly empty) and exactly its colour, font family, pixel size, bold, italic, underline, strike-out, kerning, alignment and wrap settings. Each setting that is absent takes its default independently of the others, and the defaults are the same in TMX and JSON.",
  ["inputs"], "all texts and all 2^11 presence combinations of style attributes with arbitrary values, both formats",
  "Tests cover single settings one at a time with ASCII text.",
  [J+"tiled_object.py", T+"tiled_object.py", "tiled_object.py"],
  [("text parsing", J+"tiled_object.py:_parse_text"), ("text parsing", T+"tiled_object.py:_parse_text"), ("defaults", "tiled_object.py:Text")],
  ["Text objects in ObjectLayer.tiled_objects"])

p("C07", "Custom properties keep owner, name, type and value",
  "Wherever custom properties can be attached (map, layer of any kind, object, tileset, tile, Wang set, Wang colour) the owner gets exactly its own properties by name, as the documented Python type of the declared kind: string as str (multi-line strings included), int/float as number, bool as bool, file as Path, colour as Color, object reference as number. Properties of kinds the library does not support (class) never prevent the rest of the map, or the owner's other properties, from being parsed.",
  ["inputs"], "all property lists on all owners with arbitrary names and values of every kind, in both formats",
  "Tests attach one fixed list of six properties to a map and a few single properties elsewhere; multi-line strings, object references, negative/huge numbers, odd names and owners such as Wang sets are unsampled.",
  [J+"properties.py", T+"properties.py", "properties.py"],
  [("typed conversion", J+"properties.py:parse"), ("typed conversion", T+"properties.py:parse"), ("attachment", "parsers/*/{layer,tiled_object,tileset,tiled_map,wang_set}.py")],
  [".properties of every owner"])

p("C08", "Tilesets and their tiles are parsed completely",
  "Every tileset keeps its name, tile size, tile count, columns, spacing, margin, image and image size, transparent and background colours, tile offset, grid, alignment, render size, fill mode, class, allowed transformations and versions. Every tile listed in it is found under its own id with its class, image and image size, sub-rectangle (defaulting to the whole image), animation frames in order and collision objects, and nothing is attributed to another tile.",
  ["inputs"], "all tilesets (single image or image collection, sparse/unordered tile ids) with any subset of optional parts, in both formats, embedded or external",
  "Nine fixed tilesets are tested, each exercising mostly one feature; combinations, sparse ids, zero/partial sub-rectangles and embedded variants are not.",
  [J+"tileset.py", T+"tileset.py", "tileset.py"],
  [("tileset parsing", J+"tileset.py:parse"), ("tileset parsing", T+"tileset.py:parse"), ("tile parsing", J+"tileset.py:_parse_tile"), ("tile parsing", T+"tileset.py:_parse_tile")],
  ["parse_map(file).tilesets", "parse_tileset(file)"])

p("C09", "Wang sets are parsed completely",
  "Every tileset's Wang sets appear in file order with name, type, representative tile, class, and their colours in file order (so that colour index n of the file is entry n-1 of the list) with name, colour, tile, probability and class. Every Wang tile is found under its tile id with its eight colour indexes in the file's order, in TMX and JSON alike.",
  ["inputs"], "all lists of Wang sets, colours and Wang tiles with arbitrary values, both formats",
  "One tileset with two nearly identical Wang sets is tested; class, fractional probability, non-negative tiles and larger indexes are not.",
  [J+"wang_set.py", T+"wang_set.py", "wang_set.py"],
  [("wang set parsing", J+"wang_set.py:parse,_parse_wang_color,_parse_wang_tile"), ("wang set parsing", T+"wang_set.py:parse,_parse_wang_color,_parse_wang_tile")],
  ["Tileset.wang_sets"])

p("C10", "External, embedded and cross-format tilesets all resolve",
  "A map's tilesets are keyed by the first gid the map assigns them and carry it, and a tileset has the same content whether it is embedded in the map, referenced as a TSX or as a JSON file from either map format, or loaded on its own (where its first gid is 1). Image paths of tilesets that a map references externally are absolute and designate the file found relative to the tileset file's own directory, while image paths of embedded tilesets stay as written, relative to the map.",
  ["inputs", "configurations"], "every mix of embedded, TSX and JSON tilesets with arbitrary first gids, every directory layout (same, nested, parent directories, links), both map formats",
  "Tests cover three layouts with one or two tilesets; per-tile images of external collections in other directories, mixes of all three kinds in one map, and equality with the standalone load are not checked.",
  [J+"tiled_map.py", T+"tiled_map.py", J+"tileset.py", T+"tileset.py", "parser.py"],
  [("external/embedded dispatch", J+"tiled_map.py:parse"), ("external/embedded dispatch", T+"tiled_map.py:parse"), ("image path resolution", J+"tileset.py:parse,_parse_tile"), ("image path resolution", T+"tileset.py:parse,_parse_tile"), ("standalone load", "parser.py:parse_tileset")],
  ["TiledMap.tilesets", "parse_tileset(file)"])

p("C11", "Object template instances are template overlaid by instance",
  "An object placed from an object template has every attribute, shape, text and custom property of the template except where the instance states its own value, which always wins; the id and position are the instance's, and custom properties are merged by name with the instance's value winning. Instances of the same template are independent of each other, and it does not matter in which directory the template lies or how deep in groups the object's layer is.",
  ["inputs"], "every template (all object kinds), every subset of overridden attributes/properties, several instances per template and map, nested layers and template directories, in JSON (JSON templates) and TMX (TX templates)",
  "One rectangle template with one added property, and two tile templates without overrides, are tested.",
  [J+"tiled_object.py", T+"tiled_object.py", "util.py"],
  [("template overlay", J+"tiled_object.py:parse"), ("template overlay", T+"tiled_object.py:parse"), ("template loading", "util.py:load_object_template")],
  ["ObjectLayer.tiled_objects of maps with templates"])

p("C12", "Tile objects from templates resolve to the right tileset tile",
  "After parsing, the gid of every tile object placed from a template (flip bits kept) identifies, in the map's own tilesets, the tile that the template designates in its tileset file: an already present tileset is reused, otherwise the tileset is added exactly once under a first gid whose range overlaps no other tileset's. Existing tilesets and their first gids are never changed; this holds at any layer depth, for maps with no tilesets of their own, for image collections with gaps in their tile ids, for tilesets that merely share a name, and for tilesets in the other format.",
  ["inputs", "histories"], "every sequence of template tile objects over layers and groups against every initial tileset table, both formats",
  "Tests have one map with one reused and one added tileset, at the top level, with contiguous ids.",
  [J+"tiled_map.py", T+"tiled_map.py", "util.py"],
  [("template tileset injection and gid rebasing", J+"tiled_map.py:parse"), ("template tileset injection and gid rebasing", T+"tiled_map.py:parse"), ("template tileset loading", "util.py:load_object_template,load_object_tileset")],
  ["Tile.gid of template objects", "TiledMap.tilesets"],
  [("TiledMap.tilesets", "first gid -> tileset, extended while template objects are resolved", "tiled_map.py:TiledMap"), ("Tile.new_tileset", "tileset carried by a template until it is resolved", "tiled_object.py:Tile")])

p("C13", "Colours convert exactly and are validated",
  "Every colour written as RRGGBB or AARRGGBB hexadecimal digits, in either case and with or without a leading '#', becomes the RGBA tuple with exactly those channel values and alpha 255 when no alpha is given, everywhere a colour can occur in either format. Any other string is refused with ValueError rather than turned into some colour, so every channel is always within 0..255.",
  ["inputs"], "all 2^24 RGB and 2^32 ARGB colours in every spelling, at every place a colour can occur; all other strings",
  "Three literals are tested directly, a dozen occur in test maps.",
  ["util.py"], [("colour conversion", "util.py:parse_color")], ["parse_color(text)", "colour attributes of parsed maps"])

p("C14", "TMX and JSON saves of the same map parse to equal models",
  "The same map saved by Tiled as TMX (with TSX tilesets and TX templates) and as JSON parses to equal models: same layers, objects, tilesets, properties and map attributes, value for value. The only allowed differences are the map file path and what one of the formats cannot store (such as an infinite layer's start coordinates).",
  ["inputs"], "every complete map document (all feature combinations at once), saved in both formats with independently chosen tile encodings",
  "Each parser is tested against its own fixture and never on a document combining features; agreement is only implied for about twenty fixtures.",
  [T+"tiled_map.py", J+"tiled_map.py", T+"layer.py", J+"layer.py", T+"tiled_object.py", J+"tiled_object.py", T+"tileset.py", J+"tileset.py", T+"properties.py", J+"properties.py", T+"wang_set.py", J+"wang_set.py"],
  [("two parallel parsers building one model", "parsers/tmx/*, parsers/json/*")], ["parse_map(x.tmx) == parse_map(x.json)", "parse_tileset(x.tsx) == parse_tileset(x.json)"])

p("C15", "Leaving out an optional attribute equals stating its default",
  "A file that states an optional attribute with its default value and a file that leaves it out parse to equal models, attribute by attribute and in any combination, in both formats (layer opacity, visibility, offsets, parallax, repeat; object size, rotation, visibility, name; text settings; tileset spacing, margin, render size, fill mode; map parallax origin; property type 'string'; tile layer compression). Optional attributes without a default, such as an image's size, a class or a background colour, may also be left out and are then None.",
  ["inputs"], "every subset of optional attributes on every element of every document, both formats",
  "Tests see each attribute either always present or always absent; there are thousands of presence combinations.",
  [T+"layer.py", T+"tiled_object.py", T+"tileset.py", T+"tiled_map.py", J+"layer.py", J+"tiled_object.py", J+"tileset.py", J+"tiled_map.py"],
  [("presence tests before every optional read", "parsers/*")], ["equality of two parsed models"])

p("C16", "Only the content of a file matters, not how it is laid out",
  "Parsing depends on the document and not on its serialisation: JSON key order, XML attribute order, indentation, blank lines, LF or CRLF line ends, comments, the order of XML elements of different kinds, self-closing or paired tags, character escapes or entities, and whitespace around tile data make no difference. Attributes, keys, elements and metadata that the library does not know (newer Tiled versions, editor settings) are ignored without changing anything else.",
  ["inputs"], "every document with every re-serialisation and every insertion of unknown keys/attributes/elements, both formats",
  "Fixtures are all written by Tiled with one layout each.",
  ["util.py", "parser.py", "parsers/*"], [("json/ElementTree based reading by key and tag", "parsers/*"), ("first-character format probe", "util.py:check_format")], ["equality of two parsed models"])

p("C17", "The format is recognised from content, and unknown ones refused",
  "Maps, tilesets and templates are recognised as TMX/TSX or JSON from their content alone, so file names and extensions never change the result. A file that is neither (empty, blank, arbitrary text or binary data) is refused with UnknownFormat by parse_map and parse_tileset, and so is a map, in either format, that references such a file as a tileset.",
  ["inputs"], "every file name/extension on every valid document; arbitrary text and bytes that do not begin with '<' and are not JSON",
  "One garbage line and one garbage tileset are tested.",
  ["util.py", "parser.py", J+"tiled_map.py", T+"tiled_map.py"],
  [("format probe", "util.py:check_format"), ("error mapping", "parser.py:parse_map,parse_tileset"), ("error mapping for tilesets", J+"tiled_map.py:parse")],
  ["result or exception of parse_map/parse_tileset"])

p("C18", "Damaged files are refused, never parsed into something else",
  "If a map, external tileset, template or world file is cut off at any byte (as after a crash or full disk while saving), or is followed by what is left of a longer file that it was written over, parsing raises an exception instead of returning a partial model; for JSON maps and tilesets it is UnknownFormat. Compressed tile data that is cut off or fails its checksum likewise raises instead of yielding tiles.",
  ["inputs", "crash_points"], "every cut position of every file a map consists of, every cut or corrupted position of zlib/gzip payloads, both formats",
  "No truncated file is tested.",
  ["parser.py", "util.py", J+"tiled_map.py", T+"tiled_map.py", J+"layer.py", T+"layer.py", "world.py"],
  [("strict json/XML parsing", "parser.py:parse_map,parse_tileset"), ("checked decompression", J+"layer.py:_decode_tile_layer_data"), ("checked decompression", T+"layer.py:_decode_tile_layer_data")],
  ["exception of parse_map/parse_tileset/parse_world"])

p("C19", "Worlds list every map with its position and size",
  "A world lists exactly its explicitly named maps, in order, with file path (relative to the world file's directory), position and size, followed by every regular file of that directory whose name matches a pattern from its start, positioned at captured number times multiplier plus offset per axis (offset 0 if absent) and sized by the multipliers. Directories and non-matching files are not listed, no map is loaded or needs to exist, and the only-show-adjacent flag is kept (default false).",
  ["inputs", "configurations"], "every world file (maps, patterns or both, any numbers) over every directory content",
  "Three worlds with at most three maps at offsets 0 and equal multipliers are tested, so swapped axes and offsets are invisible.",
  ["world.py"], [("world parsing", "world.py:parse_world"), ("map entry", "world.py:_parse_world_map")], ["parse_world(file)"])

p("C20", "Every parse reflects the files as they are now",
  "Over any history of parse calls, edits of the files on disk and modifications of returned objects by the caller, each parse returns exactly what the files say at that moment, the same as in a fresh process. No result is influenced by earlier calls, and changing one returned object (its properties, lists, or dictionaries) changes no other object of the same or any other result.",
  ["histories", "inputs"], "every sequence of parse / rewrite file / mutate result operations over maps, tilesets, templates and worlds",
  "Each test parses once in a fresh state and never mutates or rewrites.",
  ["tiled_object.py", "layer.py", "tileset.py", "util.py", "parser.py"],
  [("no caches, no shared defaults", "tiled_object.py:TiledObject"), ("re-reading of files on every call", "util.py:load_object_template,load_object_tileset")],
  ["equality of each parse with a model of the file contents"])

p("C21", "Results do not depend on where files lie or on the working dir",
  "Moving the whole directory tree of a map or world elsewhere, or parsing it from another working directory by absolute or relative path, yields the same model except that absolute image paths, map_file and world map paths follow the new location. Image layers, file properties and embedded tileset images stay exactly as written in the file.",
  ["configurations", "inputs"], "every map/tileset/template directory layout, every location (names with spaces and non-ASCII characters), every working directory and spelling of the path",
  "Tests parse from one place and working directory.",
  [J+"tiled_map.py", T+"tiled_map.py", J+"tileset.py", T+"tileset.py", "util.py", "world.py"],
  [("paths relative to the file's parent", J+"tiled_map.py:parse"), ("paths relative to the file's parent", T+"tiled_map.py:parse"), ("absolute().resolve()", J+"tileset.py:parse,_parse_tile")],
  ["equality of models modulo base directory"])

p("C22", "Text is read as UTF-8 whatever the host's locale",
  "Names, classes, texts, property names and values, paths and all other strings of maps, tilesets, templates and worlds are returned with exactly the characters Tiled saved (Tiled always saves UTF-8), whatever the locale and encoding settings of the process. A file made of ASCII escapes and one made of raw UTF-8 give the same strings.",
  ["configurations", "inputs"], "every Unicode string at every textual position, under UTF-8, Latin-1-like and ASCII (C locale) process settings, both formats",
  "Fixtures are ASCII and tests run under one locale.",
  ["parser.py", "util.py", J+"tiled_map.py", T+"tiled_map.py", "world.py"],
  [("file opening", "parser.py:parse_tileset"), ("file opening", "util.py:load_object_template,load_object_tileset,check_format"), ("file opening", J+"tiled_map.py:parse"), ("file opening", T+"tiled_map.py:parse"), ("file opening", "world.py:parse_world")],
  ["strings of the parsed model"])

p("C23", "Every parsed value has its documented type",
  "Every attribute of everything returned by parse_map, parse_tileset and parse_world has the documented Python type, in both formats: integer ids, gids, counts and frame values are int, flags are bool (never 0/1 or text), numbers are int or float, colours are Color, pairs are OrderedPair or Size, files are Path, collections are list or dict of the documented elements with tiles and tilesets keyed by int. No attribute holds raw format data (XML elements, undecoded strings, raw dictionaries) of supported features.",
  ["inputs"], "every document in both formats",
  "Tests compare with ==, which does not tell True from 1 or 1 from 1.0 and only on fixture values.",
  ["layer.py", "tiled_object.py", "tileset.py", "tiled_map.py", "wang_set.py", "world.py", "common_types.py"],
  [("conversions at every read", "parsers/tmx/*"), ("conversions at every read", "parsers/json/*")], ["types of all attributes, recursively"])

p("C24", "Files of older Tiled versions parse like modern ones",
  "JSON maps and tilesets in the older spellings the library supports (numeric versions, missing tiled version / infinite flag / next layer id / tileset columns, 'type' instead of 'class' for objects and tiles, tiles stored as a dictionary keyed by tile id, properties stored as a plain dictionary) parse to the same model as the same content in the modern spelling, up to the information the old spelling lacks. TMX maps without a Tiled version, infinite flag or next layer id, TSX tilesets without columns and TMX objects and tiles in either spelling of their class parse like the modern ones too. A tile or object that has both spellings of its class takes the modern one.",
  ["inputs"], "every document and every combination of legacy spellings",
  "No legacy fixture is kept in the tests (the code says so), the branches are excluded from coverage.",
  [J+"tileset.py", J+"properties.py", J+"tiled_map.py", J+"tiled_object.py", T+"tiled_map.py", T+"tileset.py", T+"tiled_object.py"],
  [("tolerant map header", T+"tiled_map.py:parse"), ("dict-style tiles", J+"tileset.py:parse"), ("dict-style properties", J+"properties.py:parse"), ("tolerant map header", J+"tiled_map.py:parse")], ["equality of two parsed models"])

p("C25", "Map attributes survive parsing",
  "The parsed map carries exactly the file's size, tile size (width and height never swapped), orientation, render order, infinite flag, version, Tiled version, next layer and object id, background colour, class, hexagon side length, stagger axis and index, parallax origin (each axis independently defaulting to 0) and the path it was parsed from. This holds for every combination of them in both formats.",
  ["inputs"], "every combination of map attributes with arbitrary values, both formats",
  "Seven fixtures, all with square-ish defaults; parallax origin and class occur in none, and version fields are blanked before comparison.",
  [J+"tiled_map.py", T+"tiled_map.py", "tiled_map.py"],
  [("map header parsing", J+"tiled_map.py:parse"), ("map header parsing", T+"tiled_map.py:parse")], ["attributes of parse_map(file)"])

p("C26", "Concurrent parses do not interfere",
  "Parsing several files (or the same file) from several threads at once, or starting one parse in the middle of another (as a signal handler might), gives each caller exactly the result, or exception, it would get parsing alone, for every interleaving.",
  ["schedules", "inputs"], "every interleaving of two or three parse calls over generated maps with tilesets and templates",
  "Tests are sequential.",
  ["parser.py", "util.py", "parsers/*"], [("no module-level mutable state", "parsers/*")], ["result of each parse call under a controlled interleaving"])

p("C27", "Unsupported content is refused, not silently misread",
  "A JSON map with a layer of unknown type raises RuntimeError wherever in the layer tree it occurs, while unknown elements among TMX layers are ignored without disturbing the others. An object template of the other format raises NotImplementedError in both directions, and zstd-compressed tile data without zstd support raises an error whose message or cause names zstd, tile data in a compression the library does not know raises as well, and so does a TMX image layer without an image (RuntimeError); none of these ever yields a map.",
  ["inputs", "configurations"], "every document with an unsupported part planted at any position (any depth, any layer, finite or infinite)",
  "Each refusal is tested once, at the top level of a fixed file.",
  [J+"layer.py", T+"layer.py", J+"tiled_object.py", T+"tiled_object.py"],
  [("unknown layer type", J+"layer.py:parse"), ("cross-format templates", J+"tiled_object.py:parse"), ("cross-format templates", T+"tiled_object.py:parse"), ("zstd check", J+"layer.py:_decode_tile_layer_data"), ("zstd check", T+"layer.py:_decode_tile_layer_data"), ("image required", T+"layer.py:_parse_image_layer")],
  ["exception of parse_map"])

p("C28", "Parsing only reads",
  "Parsing has no effect but its result: no file or directory is created, changed or removed, nothing is written to standard output or standard error, no file stays open, and process-wide settings (working directory, environment, locale, module search path, random state, caller's arguments) are as before. This holds for successful parses and for parses that raise.",
  ["inputs", "fault_sequences"], "every map, tileset, template or world, valid or broken anywhere",
  "No test observes side effects (pytest even captures the output).",
  ["parser.py", "util.py", J+"tiled_map.py", T+"tiled_map.py", "world.py"],
  [("context-managed reads only", "parser.py, util.py, world.py, parsers/*/tiled_map.py")], ["file tree, stdout/stderr, open descriptors and process settings before and after"])

p("C29", "Only the documents a file refers to are opened",
  "A parse opens, for reading, only the file it is given and the tileset and template files that a map leads to (a world or a tileset leads to none); it runs no other code and no other program and does not reach for the network, whatever the file says. Images, documents named by a document type, external entity or style sheet, files named by properties and neighbours with similar names are never opened, and whether they exist makes no difference to the result.",
  ["inputs", "configurations"], "every project and world, with any document type or entity declaration, any image, file property or neighbouring file",
  "Tests look at results only; which files were opened on the way is invisible to them.",
  ["parser.py", "util.py", "world.py", J+"tiled_map.py", T+"tiled_map.py", J+"tiled_object.py", T+"tiled_object.py"],
  [("plain open of the named file", "parser.py:parse_map"), ("external tilesets", T+"tiled_map.py:parse"), ("external tilesets", J+"tiled_map.py:parse"), ("templates", "util.py:load_object_template")], ["files opened (audit events) during parse_map, parse_tileset, parse_world"])

p("C30", "The same file gives the same model under every interpreter setting",
  "What a file parses to does not depend on how the interpreter is run: on the hash seed, on optimisation (-O, -OO), on strict byte comparison or warnings being errors, on development mode or the limit on integer digits. Dictionaries made from lists of the file (properties, tilesets, tiles, Wang tiles) iterate in the order of the file.",
  ["configurations", "inputs"], "every project and world under each of seven interpreter settings",
  "Tests run in one interpreter with one setting.",
  ["parser.py", "world.py", J+"*", T+"*"],
  [("explicit checks instead of assertions", T+"tiled_map.py"), ("insertion order", J+"properties.py:parse"), ("insertion order", T+"properties.py:parse"), ("Wang tiles", J+"wang_set.py:parse")], ["parsed models in worker processes started with each setting"])

p("C31", "Parsed models are plain values",
  "Two parses of the same files give equal models with equal representations; a model equals its shallow and deep copies and what pickling gives back, which also read the same attribute by attribute. Changing one value in a file makes the models differ under == exactly when an attribute differs.",
  ["inputs", "histories"], "every project and world and every single-value change of it",
  "Tests compare a parse with one hand-written expectation; a field left out of comparison, or equality by identity, agrees with all of them.",
  ["layer.py", "tileset.py", "tiled_map.py", "tiled_object.py", "wang_set.py", "world.py", "properties.py", "common_types.py"],
  [("attrs classes compared by value", "layer.py:Layer"), ("attrs classes compared by value", "tiled_object.py:TiledObject"), ("attrs classes compared by value", "tileset.py:Tileset"), ("attrs classes compared by value", "wang_set.py:WangSet")], ["==, repr, copy, deepcopy and pickle of what the parse functions return"])

p("C32", "Parsing effort grows in proportion to the input",
  "The number of steps a parse takes in the library grows no faster than the input: with n, 3n and 9n more elements of any one kind (layers, nesting, objects, template instances, tiles, frames, chunks, rows, columns, properties, Wang colours and tiles, tilesets, world maps, matching files), each further element costs no more than those before it.",
  ["inputs"], "every kind of element added to any project, in both formats and every tile encoding",
  "Test files are small; quadratic work is not visible on them.",
  ["parser.py", "util.py", "world.py", J+"*", T+"*"],
  [("single pass over cells", J+"layer.py:_decode_tile_layer_data"), ("single pass over cells", T+"layer.py:_convert_raw_tile_layer_data"), ("direct children only", T+"layer.py:_parse_group_layer"), ("one listing of the folder", "world.py:parse_world")], ["lines executed and calls made in pytiled_parser during a parse"])

p("C33", "Any bytes end in a model or an ordinary exception",
  "Whatever a file contains, parsing it ends in bounded time and memory, either with a model or with an ordinary exception (a subclass of Exception other than MemoryError); parsing it again has the same outcome, and a failed or odd parse leaves later parses of sound files unaffected.",
  ["inputs", "fault_sequences"], "every project and world with any one file damaged by structural edits (values, keys, attributes, elements) or byte edits",
  "Tests load well-formed files only.",
  ["parser.py", "util.py", "world.py", J+"*", T+"*"],
  [("dispatch by content", "util.py:check_format"), ("JSON reading", "parser.py:parse_map"), ("XML reading", T+"tiled_map.py:parse")], ["outcome of parse_map, parse_tileset and parse_world on damaged files"])

p("C34", "Size is no limit",
  "However many elements a file holds (tens of thousands of objects, points, properties, layers, rows, columns, chunks, tilesets, tiles, frames, Wang entries, template instances or world maps, or a text of megabytes), all of them come back, in order and with their own values, the same as a few would.",
  ["inputs"], "every number of elements of every kind, in both formats and every way of storing them",
  "Test files hold a handful of elements; limits, wrap-arounds and lookups that only fail beyond 255 or 65535 are not reached.",
  ["parser.py", "world.py", J+"*", T+"*"],
  [("rows from one flat list", J+"layer.py:_convert_raw_tile_layer_data"), ("rows from one flat list", T+"layer.py:_convert_raw_tile_layer_data"), ("tiles by id", T+"tileset.py:parse"), ("tiles by id", J+"tileset.py:parse")], ["lists and dictionaries of the parsed models"])

p("C35", "Model objects can be built by hand",
  "Every public model class (maps, layers, chunks, objects, tilesets, tiles, Wang sets, worlds and the value tuples) can be built from its required attributes alone, the others then having their documented defaults; no two objects built so share a mutable value. An object built from the attributes of a parsed one equals it, one that differs in any attribute or in its kind of object does not, and a missing or unknown attribute is refused with TypeError.",
  ["inputs"], "every combination of attributes given and left out, at every value that occurs in parsed models",
  "The tests only build expected values for their own files; shared defaults, wrong defaults and attributes left out of the comparison need other combinations.",
  ["layer.py", "tileset.py", "tiled_map.py", "tiled_object.py", "wang_set.py", "world.py", "common_types.py"],
  [("attributes and defaults", "layer.py:Layer"), ("attributes and defaults", "tiled_object.py:TiledObject"), ("attributes and defaults", "tileset.py:Tileset"), ("attributes and defaults", "tiled_map.py:TiledMap")], ["constructors of the model classes, ==, attributes"])
p("C36", "A parse keeps nothing behind",
  "Once the result (or the exception) of a parse is dropped, all memory it took is free again: no part of any model stays alive inside the library, and parsing any number of different files, sound or damaged, does not make the process grow.",
  ["inputs", "histories"], "every sequence of parses of different files, sound or damaged",
  "No test looks at memory; caches and registries only show over many different files.",
  ["parser.py", "util.py", "world.py", J+"*", T+"*"],
  [("no module-level state", "util.py:load_object_template"), ("no module-level state", J+"tiled_map.py:parse"), ("no module-level state", T+"tiled_map.py:parse")], ["live model objects and allocated blocks after the results are dropped"])
p("C37", "Read errors and interruptions reach the caller",
  "If any file that a parse needs cannot be opened or read (missing, a directory, a broken link, no permission, an I/O error), the parse raises that error (an OSError; RuntimeError for circular links) and gives no model. An exception from outside, such as KeyboardInterrupt or MemoryError, that strikes at any moment of a parse reaches the caller too. No file stays open, and parsing again afterwards gives the full model.",
  ["inputs", "fault_sequences"], "every file needed, every opening of it and every moment of the parse",
  "The tests do not inject failures; swallowed errors and state left half-done only show at the right file or line.",
  ["parser.py", "util.py", "world.py", J+"*", T+"*"],
  [("errors are not caught", "parser.py:parse_map"), ("only ValueError is translated", J+"tiled_map.py:parse"), ("files are closed", "util.py:load_object_template"), ("files are closed", "world.py:parse_world")], ["outcome of parse calls under injected faults, and of the parse after them"])

p("C38", "Each part of a file is parsed on its own",
  "What a part of a file (a layer, group, object, point, property, tileset, tile, frame, Wang set, colour or tile, chunk, world map) parses to depends on that part alone, not on its neighbours, its position or what contains it: removing, doubling, moving, emptying, changing or inserting one part changes exactly that part of the model and leaves every other part as it was (parts looked up by a key, such as properties by name and tiles by id, having different keys; first gids of tilesets that only templates lead to excepted).",
  ["inputs"], "every edit of one part of every project and world, in both formats",
  "The tests parse fixed files one at a time; that something leaks from one part into another only shows when two files differ in a single part.",
  ["parser.py", "world.py", J+"*", T+"*"],
  [("one layer at a time", J+"layer.py:parse"), ("one layer at a time", T+"layer.py:parse"), ("one object at a time", J+"tiled_object.py:parse"), ("one object at a time", T+"tiled_object.py:parse"), ("one tile at a time", J+"tileset.py:parse"), ("one tile at a time", T+"tileset.py:parse")], ["models of a file and of the file with one part edited"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
