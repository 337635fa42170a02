import os
import xml.etree.ElementTree as etree
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, check_diff, parse_map, parse_tileset, parse_world
from ..emit import Writer, to_bytes
from ..tree import json_bytes
from .c14 import project_classes
from .c19 import world_maps

# The documented types (docstrings and annotations of the public classes), restated.
INT, NUM, BOOL, STR, PATH = "int", "number", "bool", "str", "Path"
COLOR, PAIR, SIZE, PROPS = "Color", "OrderedPair", "Size", "Properties"


def opt(t):
    return ("opt", t)


def lst(t):
    return ("list", t)


def dct(t):
    return ("dict", t)


LAYER = dict(name=STR, opacity=NUM, visible=BOOL, repeat_x=BOOL, repeat_y=BOOL, coordinates=PAIR, parallax_factor=PAIR, offset=PAIR,
             id=opt(INT), class_=opt(STR), size=opt(SIZE), properties=opt(PROPS), tint_color=opt(COLOR))
OBJECT = dict(id=INT, coordinates=PAIR, size=SIZE, rotation=NUM, visible=BOOL, name=STR, class_=STR, properties=PROPS)
CLASSES = {
    ("tiled_map", "TiledMap"): dict(
        map_file=PATH, infinite=BOOL, layers=lst("layer"), map_size=("size", INT), next_layer_id=opt(INT), next_object_id=INT, orientation=STR,
        render_order=STR, tiled_version=STR, tile_size=("size", INT), tilesets=dct(("obj", "Tileset")), version=STR, parallax_origin=PAIR,
        class_=opt(STR), background_color=opt(COLOR), properties=opt(PROPS), hex_side_length=opt(INT), stagger_axis=opt(STR), stagger_index=opt(STR)),
    ("layer", "TileLayer"): dict(LAYER, size=("size", INT), data=opt(lst(lst(INT))), chunks=opt(lst(("obj", "Chunk")))),
    ("layer", "Chunk"): dict(coordinates=("pair", INT), size=("size", INT), data=lst(lst(INT))),
    ("layer", "ObjectLayer"): dict(LAYER, tiled_objects=lst("object"), draw_order=opt(STR)),
    ("layer", "ImageLayer"): dict(LAYER, image=PATH, transparent_color=opt(COLOR)),
    ("layer", "LayerGroup"): dict(LAYER, layers=opt(lst("layer"))),
    ("tiled_object", "Ellipse"): OBJECT,
    ("tiled_object", "Point"): OBJECT,
    ("tiled_object", "Rectangle"): OBJECT,
    ("tiled_object", "Polygon"): dict(OBJECT, points=lst(PAIR)),
    ("tiled_object", "Polyline"): dict(OBJECT, points=lst(PAIR)),
    ("tiled_object", "Text"): dict(OBJECT, text=STR, color=COLOR, font_family=STR, font_size=NUM, bold=BOOL, italic=BOOL, kerning=BOOL,
                                   strike_out=BOOL, underline=BOOL, horizontal_align=STR, vertical_align=STR, wrap=BOOL),
    ("tiled_object", "Tile"): dict(OBJECT, gid=INT),
    ("tileset", "Tileset"): dict(
        name=STR, tile_width=INT, tile_height=INT, tile_count=INT, columns=INT, firstgid=INT, type=STR, tile_render_size=STR, fill_mode=STR,
        spacing=INT, margin=INT, tiled_version=opt(STR), version=opt(STR), image=opt(PATH), image_width=opt(INT), image_height=opt(INT),
        transformations=opt(("obj", "Transformations")), class_=opt(STR), background_color=opt(COLOR), tile_offset=opt(PAIR), transparent_color=opt(COLOR),
        grid=opt("grid"), properties=opt(PROPS), tiles=opt(dct(("obj", "tileset.Tile"))), wang_sets=opt(lst(("obj", "WangSet"))), alignment=opt(STR)),
    ("tileset", "Transformations"): dict(hflip=BOOL, vflip=BOOL, rotate=BOOL, prefer_untransformed=BOOL),
    ("tileset", "Tile"): dict(
        id=INT, opacity=NUM, x=INT, y=INT, width=INT, height=INT, class_=opt(STR), animation=opt(lst("frame")), objects=opt(("obj", "ObjectLayer")),
        image=opt(PATH), image_width=opt(INT), image_height=opt(INT), properties=opt(PROPS), flipped_horizontally=BOOL, flipped_diagonally=BOOL,
        flipped_vertically=BOOL),
    ("wang_set", "WangSet"): dict(name=STR, tile=INT, wang_type=STR, wang_tiles=dct(("obj", "WangTile")), wang_colors=lst(("obj", "WangColor")),
                                  class_=opt(STR), properties=opt(PROPS)),
    ("wang_set", "WangColor"): dict(color=COLOR, name=STR, probability=NUM, tile=INT, class_=opt(STR), properties=opt(PROPS)),
    ("wang_set", "WangTile"): dict(tile_id=INT, wang_id=lst(INT)),
    ("world", "World"): dict(maps=lst(("obj", "WorldMap")), only_show_adjacent=BOOL),
    ("world", "WorldMap"): dict(map_file=PATH, size=SIZE, coordinates=PAIR),
}


class Types:
    def __init__(self):
        import importlib

        observe.load()
        self.table = {}
        for (module, name), fields in CLASSES.items():
            cls = getattr(importlib.import_module("pytiled_parser." + module), name)
            self.table[cls] = fields
            self.table[name if (module, name) != ("tileset", "Tile") else "tileset.Tile"] = cls
        self.c = importlib.import_module("pytiled_parser.common_types")
        self.t = importlib.import_module("pytiled_parser.tileset")
        self.layers = tuple(self.table[n] for n in ("TileLayer", "ObjectLayer", "ImageLayer", "LayerGroup"))
        self.objects = tuple(self.table[n] for n in ("Ellipse", "Point", "Rectangle", "Polygon", "Polyline", "Text")) + (
            importlib.import_module("pytiled_parser.tiled_object").Tile,)

    def bad(self, where, value, want):
        self.problems.append(f"{where} is a {type(value).__name__} ({repr(value)[:80]}), documented as {want}")

    def run(self, value, want, where):
        self.problems = []
        self.check(value, want, where)
        return self.problems

    def check(self, v, want, where):
        c = self.c
        if len(self.problems) > 6:
            return
        if isinstance(want, tuple):
            kind, inner = want
            if kind == "opt":
                if v is not None:
                    self.check(v, inner, where)
            elif kind == "list":
                if not isinstance(v, list):
                    return self.bad(where, v, "list")
                for i, x in enumerate(v):
                    self.check(x, inner, f"{where}[{i}]")
            elif kind == "dict":
                if not isinstance(v, dict):
                    return self.bad(where, v, "dict")
                for k, x in v.items():
                    self.check(k, INT, f"key {k!r} of {where}")
                    self.check(x, inner, f"{where}[{k!r}]")
            elif kind in ("size", "pair"):
                cls = c.Size if kind == "size" else c.OrderedPair
                if not isinstance(v, cls):
                    return self.bad(where, v, cls.__name__)
                for x in v:
                    self.check(x, inner, where)
            elif kind == "obj":
                if type(v) is not self.table[inner]:
                    return self.bad(where, v, inner)
                self.members(v, where)
            return
        if want == "layer":
            return self.members(v, where) if type(v) in self.layers else self.bad(where, v, "one of the layer classes")
        if want == "object":
            return self.members(v, where) if type(v) in self.objects else self.bad(where, v, "one of the object classes")
        if want == PROPS:
            if not isinstance(v, dict):
                return self.bad(where, v, "dict")
            for k, x in v.items():
                if not isinstance(k, str):
                    self.bad(f"key of {where}", k, "str")
                elif not k.startswith("cls!"):
                    if isinstance(x, c.Color):
                        self.check(x, COLOR, f"{where}[{k!r}]")
                    elif not isinstance(x, (int, float, str, Path)):
                        self.bad(f"{where}[{k!r}]", x, "a property value")
            return
        if want == COLOR:
            if not isinstance(v, c.Color):
                return self.bad(where, v, "Color")
            for x in v:
                self.check(x, INT, where)
            return
        if want in (PAIR, SIZE):
            return self.check(v, ("pair" if want == PAIR else "size", NUM), where)
        if want == "grid":
            if not isinstance(v, self.t.Grid):
                return self.bad(where, v, "Grid")
            self.check(v.orientation, STR, where + ".orientation")
            self.check(v.width, INT, where + ".width")
            return self.check(v.height, INT, where + ".height")
        if want == "frame":
            if not isinstance(v, self.t.Frame):
                return self.bad(where, v, "Frame")
            self.check(v.tile_id, INT, where + ".tile_id")
            return self.check(v.duration, INT, where + ".duration")
        ok = {
            INT: isinstance(v, int) and not isinstance(v, bool),
            NUM: isinstance(v, (int, float)) and not isinstance(v, bool),
            BOOL: isinstance(v, bool),
            STR: isinstance(v, str),
            PATH: isinstance(v, Path),
        }[want]
        if not ok:
            self.bad(where, v, want)

    def members(self, v, where):
        fields = self.table[type(v)]
        for name, want in fields.items():
            self.check(getattr(v, name), want, f"{where}.{name}")
        for name, value in observe.fields(v):
            if name not in fields and (isinstance(value, etree.Element) or (isinstance(value, dict) and name == "new_tileset")):
                self.bad(f"{where}.{name}", value, "nothing: raw data of the file")


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=2))
    fmt = draw(st.sampled_from(["tmx", "json"]))
    knobs = {"classkey": draw(st.sampled_from(["class", "type"]))}
    if fmt == "json" and draw(st.integers(0, 2)) == 0:
        knobs["legacy"] = draw(st.lists(st.sampled_from(["num_version", "no_tiledversion", "no_infinite", "no_nextlayerid", "no_columns", "notype"]), unique=True))
        if doc["map"]["infinite"]:
            knobs["legacy"] = [k for k in knobs["legacy"] if k != "no_infinite"]
    world = {"maps": draw(world_maps())}
    if draw(st.booleans()):
        world["onlyShowAdjacentMaps"] = draw(st.booleans())
    if draw(st.booleans()):
        p = {"regexp": r"m(\d+)_(\d+)\.tmx", "multiplierX": draw(st.integers(-9, 99)), "multiplierY": draw(st.integers(1, 99))}
        for key in ("offsetX", "offsetY"):
            if draw(st.booleans()):
                p[key] = draw(st.integers(-9, 9))
        world["patterns"] = [p]
    return {"doc": doc, "fmt": fmt, "knobs": knobs, "world": world}


class C23(Prop):
    id = "C23"
    rule = (
        "A case is a random project (every kind of layer, object, property, tileset feature; JSON also in legacy spellings) and a "
        "world; every attribute of everything that parse_map, parse_tileset (each tileset alone) and parse_world return is checked "
        "against a table of the documented types, restated independently, down to elements and keys of collections. "
        "Non-trivial: at least two layers or a tileset."
    )
    quick = 330
    thorough = 17000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        types = Types()
        doc, fmt = case["doc"], case["fmt"]
        writer = Writer(doc, fmt, case["knobs"])
        files = writer.contents()
        files["w/x.world"] = json_bytes(case["world"])
        files["w/m1_2.tmx"] = b""
        env.write(files)
        check_diff(types.run(parse_map(os.path.join(env.root, writer.map_path())), ("obj", "TiledMap"), "map"), fmt)
        for i, ts in enumerate(doc["tilesets"]):
            if ts["ref"] != "embed":
                path = os.path.join(env.root, writer.ts_path(i))
                check_diff(types.run(parse_tileset(path), ("obj", "Tileset"), "tileset"), writer.ts_fmt(ts))
        check_diff(types.run(parse_world(os.path.join(env.root, "w/x.world")), ("obj", "World"), "world"))

    def nontrivial(self, case):
        return len(case["doc"]["map"]["layers"]) >= 2 or bool(case["doc"]["tilesets"])

    def classes(self, case):
        return [case["fmt"] + " " + c for c in project_classes(case["doc"])] + ["legacy " + k for k in case["knobs"].get("legacy", [])]


PROP = C23()
