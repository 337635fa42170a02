import os
import random
from pathlib import Path

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, call, check_diff, expect_raise, fail, parse_map, parse_tileset, parse_world
from ..emit import Writer, to_bytes
from ..tree import json_bytes
from .c14 import project_classes
from .c19 import simple_worlds, world_json

NEED = object()
EMPTY = object()  # a new empty dictionary each time
PAIR = lambda *v: ("OrderedPair", v)  # noqa: E731
SIZE = lambda *v: ("Size", v)  # noqa: E731
COLOR = lambda *v: ("Color", v)  # noqa: E731

# class -> (may the required attributes be given by position, attributes with their documented defaults)
LAYER = [("name", NEED), ("opacity", 1), ("visible", True), ("repeat_x", False), ("repeat_y", False), ("coordinates", PAIR(0, 0)), ("parallax_factor", PAIR(1, 1)),
         ("offset", PAIR(0, 0)), ("id", None), ("class_", None), ("size", None), ("properties", None), ("tint_color", None)]
OBJECT = [("id", NEED), ("coordinates", NEED), ("size", SIZE(0, 0)), ("rotation", 0), ("visible", True), ("name", ""), ("class_", ""), ("properties", EMPTY)]
SPEC = {
    "layer.Layer": (False, LAYER),
    "layer.TileLayer": (False, LAYER + [("chunks", None), ("data", None)]),
    "layer.ObjectLayer": (False, LAYER + [("tiled_objects", NEED), ("draw_order", "topdown")]),
    "layer.ImageLayer": (False, LAYER + [("image", NEED), ("transparent_color", None)]),
    "layer.LayerGroup": (False, LAYER + [("layers", NEED)]),
    "layer.Chunk": (True, [("coordinates", NEED), ("size", NEED), ("data", NEED)]),
    "tiled_object.TiledObject": (False, OBJECT),
    "tiled_object.Ellipse": (False, OBJECT),
    "tiled_object.Point": (False, OBJECT),
    "tiled_object.Rectangle": (False, OBJECT),
    "tiled_object.Polygon": (False, OBJECT + [("points", NEED)]),
    "tiled_object.Polyline": (False, OBJECT + [("points", NEED)]),
    "tiled_object.Tile": (False, OBJECT + [("gid", NEED)]),
    "tiled_object.Text": (False, OBJECT + [("text", NEED), ("color", COLOR(255, 255, 255, 255)), ("font_family", "sans-serif"), ("font_size", 16), ("bold", False), ("italic", False),
                                           ("kerning", True), ("strike_out", False), ("underline", False), ("horizontal_align", "left"), ("vertical_align", "top"), ("wrap", False)]),
    "tileset.Transformations": (False, [("hflip", False), ("vflip", False), ("rotate", False), ("prefer_untransformed", False)]),
    "tileset.Tile": (False, [("id", NEED), ("opacity", 1), ("x", 0), ("y", 0), ("width", 0), ("height", 0), ("class_", None), ("animation", None), ("objects", None), ("image", None),
                             ("image_width", None), ("image_height", None), ("properties", None), ("tileset", None), ("flipped_horizontally", False), ("flipped_diagonally", False),
                             ("flipped_vertically", False)]),
    "tileset.Tileset": (True, [("name", NEED), ("tile_width", NEED), ("tile_height", NEED), ("tile_count", NEED), ("columns", NEED), ("firstgid", NEED), ("type", "tileset"),
                               ("tile_render_size", "tile"), ("fill_mode", "stretch"), ("spacing", 0), ("margin", 0), ("tiled_version", None), ("version", None), ("image", None),
                               ("image_width", None), ("image_height", None), ("transformations", None), ("class_", None), ("background_color", None), ("tile_offset", None),
                               ("transparent_color", None), ("grid", None), ("properties", None), ("tiles", None), ("wang_sets", None), ("alignment", None)]),
    "tileset.Grid": (True, [("orientation", NEED), ("width", NEED), ("height", NEED)]),
    "tileset.Frame": (True, [("tile_id", NEED), ("duration", NEED)]),
    "wang_set.WangTile": (True, [("tile_id", NEED), ("wang_id", NEED)]),
    "wang_set.WangColor": (True, [("color", NEED), ("name", NEED), ("probability", NEED), ("tile", NEED), ("class_", None), ("properties", None)]),
    "wang_set.WangSet": (True, [("name", NEED), ("tile", NEED), ("wang_type", NEED), ("wang_tiles", NEED), ("wang_colors", NEED), ("class_", None), ("properties", None)]),
    "tiled_map.TiledMap": (True, [("map_file", NEED), ("infinite", NEED), ("layers", NEED), ("map_size", NEED), ("next_layer_id", NEED), ("next_object_id", NEED), ("orientation", NEED),
                                  ("render_order", NEED), ("tiled_version", NEED), ("tile_size", NEED), ("tilesets", NEED), ("version", NEED), ("parallax_origin", PAIR(0, 0)),
                                  ("class_", None), ("background_color", None), ("properties", None), ("hex_side_length", None), ("stagger_axis", None), ("stagger_index", None)]),
    "world.WorldMap": (True, [("map_file", NEED), ("size", NEED), ("coordinates", NEED)]),
    "world.World": (True, [("maps", NEED), ("only_show_adjacent", False)]),
    "common_types.Color": (True, [("red", NEED), ("green", NEED), ("blue", NEED), ("alpha", NEED)]),
    "common_types.Size": (True, [("width", NEED), ("height", NEED)]),
    "common_types.OrderedPair": (True, [("x", NEED), ("y", NEED)]),
}
TUPLES = {"common_types.Color", "common_types.Size", "common_types.OrderedPair", "tileset.Grid", "tileset.Frame"}
CLASSES = {}


def classes():
    import importlib

    if not CLASSES:
        for name in SPEC:
            module, cls = name.split(".")
            CLASSES[name] = getattr(importlib.import_module("pytiled_parser." + module), cls)
    return CLASSES


def name_of(value):
    for name, cls in classes().items():
        if type(value) is cls:
            return name
    return None


def default(d):
    if d is EMPTY:
        return {}
    if isinstance(d, tuple):
        return classes()["common_types." + d[0]](*d[1])
    return d


class Builder:
    """Rebuilds values by the constructors alone, leaving out some of what is at its default"""

    def __init__(self, rng):
        self.rng = rng
        self.made = []

    def build(self, value):
        name = name_of(value)
        if name is None:
            if isinstance(value, dict):
                return {k: self.build(v) for k, v in value.items()}
            if isinstance(value, list):
                return [self.build(v) for v in value]
            return value
        by_position, attrs = SPEC[name]
        left_out = self.rng.random()
        args, kw = [], {}
        for k, d in attrs:
            v = getattr(value, k)
            if d is not NEED and self.rng.random() < left_out and v == default(d) and type(v) is type(default(d)):
                continue
            v = self.build(v)
            if d is NEED and by_position and len(kw) == 0 and self.rng.random() < 0.8:
                args.append(v)
            else:
                kw[k] = v
        keys = list(kw)
        self.rng.shuffle(keys)
        made = call(classes()[name], *args, **{k: kw[k] for k in keys})
        self.made.append((name, value, made, [k for k, _ in attrs if k not in kw][len(args):]))
        return made


NUMBERS = {"id", "image_width", "image_height", "next_layer_id", "hex_side_length"}
TEXTS = {"class_", "tiled_version", "version", "alignment", "stagger_axis", "stagger_index"}


def other_value(k, v):
    """Another value that the attribute may have, or None"""
    if isinstance(v, bool):
        return not v
    if isinstance(v, (int, float)):
        return 0 if v else 1
    if isinstance(v, str):
        return v + "~"
    if isinstance(v, Path):
        return v / "more"
    if v is None:
        color, pair, size = (classes()["common_types." + c] for c in ("Color", "OrderedPair", "Size"))
        known = {"color": color(1, 2, 3, 4), "offset": pair(1, 2), "size": size(1, 2), "properties": {"one": "more"}, "image": Path("more.png"), "grid": classes()["tileset.Grid"]("orthogonal", 1, 2)}
        return 5 if k in NUMBERS else "given" if k in TEXTS else known.get(k.rsplit("_", 1)[-1])
    if isinstance(v, tuple):
        rest = list(v)
        rest[-1] = other_value("", rest[-1])
        return None if rest[-1] is None else type(v)(*rest)
    if isinstance(v, list):
        return v[:-1] if v else [v] if k == "data" else None
    if isinstance(v, dict):
        if v:
            return dict(list(v.items())[1:])
        return {"one": "more"} if k == "properties" else None
    return None


KINDS = ["Ellipse", "Point", "Rectangle", "Polygon", "Polyline", "Tile", "Text"]


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=2, maxobj=3))
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()), "seed": draw(st.integers(0, 2**20))}


class C35(Prop):
    id = "C35"
    rule = (
        "A case is a random project and world; the parsed models are built again by the constructors of the model classes alone, required attributes by position or name, a random subset "
        "of those at their documented default left out: they must equal the parsed ones, attribute by attribute and by ==, and no longer when one attribute is set to another value. Every one of "
        "the 29 public classes is also built twice from its required attributes, taken from the models where they occur: the others must be at their defaults, and what is put into one must not "
        "show in the other; a missing or unknown attribute must raise TypeError; objects of different kinds must not be equal. Non-trivial: the project has a layer or a tileset."
    )
    quick = 220
    thorough = 11000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc, rng = case["doc"], random.Random(case["seed"])
        writer = Writer(doc, case["fmt"])
        env.write(writer.contents())
        env.write({"w/x.world": json_bytes(world_json(case["world"]))})
        models = [(parse_map(os.path.join(env.root, writer.map_path())), observe.map_), (parse_world(os.path.join(env.root, "w/x.world")), observe.world)]
        models += [(parse_tileset(os.path.join(env.root, writer.ts_path(i))), observe.tileset) for i, t in enumerate(doc["tilesets"][:2]) if t["ref"] != "embed"]
        builder = Builder(rng)
        for model, read in models:
            again = builder.build(model)
            check_diff(observe.diff(read(model), read(again)), "built by hand")
            if not call(lambda: model == again and again == model) or call(lambda: model != again):
                fail(f"{type(model).__name__} built by hand is not equal to the parsed one")
        for name, value, made, left_out in rng.sample(builder.made, min(len(builder.made), 12)):
            if name in TUPLES:
                continue
            k = rng.choice(SPEC[name][1])[0]
            old = getattr(made, k)
            new = other_value(k, old)
            if new is None:
                continue
            setattr(made, k, new)
            if call(lambda: value == made) or not call(lambda: value != made):
                fail(f"{name} with {k} changed from {old!r:.60} to {new!r:.60} is still equal")
            setattr(made, k, old)
            if not call(lambda: value == made):
                fail(f"{name} with {k} set back is not equal")
        self.bare(builder, rng)

    def bare(self, builder, rng):
        known = {}
        for name, value, _, _ in builder.made:
            known.setdefault(name, value)
        pair, size = classes()["common_types.OrderedPair"], classes()["common_types.Size"]
        stock = {"name": "n", "id": rng.randrange(100), "coordinates": pair(1, 2), "image": Path("i.png"), "gid": 7, "text": "t", "tiled_objects": [], "layers": [], "points": [pair(0, 1)],
                 "data": [[1]], "maps": [], "tilesets": {}, "wang_tiles": {}, "wang_colors": [], "wang_id": [0, 1, 0, 1, 0, 1, 0, 1], "color": classes()["common_types.Color"](1, 2, 3, 4),
                 "probability": 1.0, "infinite": False, "map_file": Path("m.json"), "orientation": "orthogonal", "render_order": "right-down", "wang_type": "corner",
                 "version": "1.10", "tiled_version": "1.10.1"}
        stock.update({k: 3 for k in NUMBERS | {"tile_width", "tile_height", "tile_count", "columns", "firstgid", "tile_id", "duration", "tile", "red", "green", "blue", "alpha", "x", "y", "next_object_id"}})
        kinds = {}
        for name, (_, attrs) in SPEC.items():
            need = {k: getattr(known[name], k) if name in known else stock.get(k, size(3, 4)) for k, d in attrs if d is NEED}
            if name in ("common_types.Size", "tileset.Grid"):
                need.update(width=3, height=4)
            if name.startswith("tiled_object."):
                need.update({k: stock[k] for k in ("id", "coordinates")})
                if "points" in need:
                    need["points"] = stock["points"]
            cls = classes()[name]
            a, b = call(cls, **need), call(cls, **need)
            if call(lambda: a != b) or not call(lambda: a == b):
                fail(f"two {name} built from the same attributes are not equal")
            for k, d in attrs:
                want = need[k] if d is NEED else default(d)
                for x in (a, b):
                    if (isinstance(want, bool) or want is None or isinstance(getattr(x, k), bool)) and getattr(x, k) is not want or getattr(x, k) != want:
                        fail(f"{name}.{k} is {getattr(x, k)!r:.80} instead of {want!r:.80} when not given")
            for k, d in attrs:
                if d is EMPTY:
                    getattr(a, k)["put in"] = 1
                    if getattr(b, k) or getattr(call(cls, **need), k):
                        fail(f"what is put into {name}.{k} shows in another one")
                    getattr(a, k).clear()
            if need:
                k = rng.choice(list(need))
                expect_raise(lambda: cls(**{x: v for x, v in need.items() if x != k}), types=(TypeError,), what=f"{name} without {k}")
            expect_raise(lambda: cls(**need, no_such_attribute=1), types=(TypeError,), what=f"{name} with an unknown attribute")
            if name.startswith("tiled_object.") and name.split(".")[1] in KINDS:
                kinds[name] = a
        for x, a in kinds.items():
            for y, b in kinds.items():
                if (x == y) != call(lambda: a == b):
                    fail(f"{x} == {y} gives {a == b}")

    def nontrivial(self, case):
        return bool(case["doc"]["map"]["layers"] or case["doc"]["tilesets"])

    def classes(self, case):
        return [case["fmt"]] + project_classes(case["doc"])


PROP = C35()
