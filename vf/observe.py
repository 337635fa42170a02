"""Projects what the library returned onto canonical values, through documented attributes
only, and compares canonical values."""
import os
from pathlib import Path


def _mods():
    import pytiled_parser
    from pytiled_parser import common_types, layer, tiled_map, tiled_object, tileset, wang_set, world

    return pytiled_parser, common_types, layer, tiled_map, tiled_object, tileset, wang_set, world


P, C, L, M, O, T, W, WORLD = (None,) * 8


def load():
    global P, C, L, M, O, T, W, WORLD
    if P is None:
        P, C, L, M, O, T, W, WORLD = _mods()


def is_model(v):
    """An instance of one of the library's classes, other than plain values such as colours"""
    return type(v).__module__.split(".")[0] == "pytiled_parser" and not isinstance(v, (tuple, BaseException))


def fields(v):
    """All that an instance holds, however its class stores it: [(name, value)]"""
    names = dict.fromkeys(getattr(v, "__dict__", ()))
    for cls in type(v).__mro__:
        slots = cls.__dict__.get("__slots__", ())
        names.update(dict.fromkeys([slots] if isinstance(slots, str) else slots))
    names = [k for k in names if k not in ("__weakref__", "__dict__")]
    return [(k, getattr(v, k)) for k in names if hasattr(v, k)]


def scalar(v):
    load()
    if isinstance(v, C.Color):
        return ("color", v.red, v.green, v.blue, v.alpha)
    if isinstance(v, Path):
        return ("path", str(v))
    if v is None or isinstance(v, (bool, int, float, str)):
        return v
    return ("other", type(v).__name__, repr(v)[:200])


def pair(v):
    if isinstance(v, C.OrderedPair):
        return ("pair", v.x, v.y)
    return v if v is None else ("other", type(v).__name__, repr(v)[:200])


def size(v):
    if isinstance(v, C.Size):
        return ("size", v.width, v.height)
    return v if v is None else ("other", type(v).__name__, repr(v)[:200])


def props(v):
    if v is None:
        return {}
    # the value of a property of an unsupported kind is not claimed (see expect.props)
    return {k: scalar(x) for k, x in v.items() if not str(k).startswith("cls!")}


def grid2(v):
    return None if v is None else [list(r) for r in v]


OBJ_KINDS = {
    "Ellipse": "ellipse", "Point": "point", "Polygon": "polygon", "Polyline": "polyline",
    "Rectangle": "rect", "Text": "text", "Tile": "tile",
}


def obj_kind(o):
    load()
    kinds = [k for name, k in OBJ_KINDS.items() if isinstance(o, getattr(O, name))]
    return kinds[0] if len(kinds) == 1 else ("other", type(o).__name__)


def obj(o):
    kind = obj_kind(o)
    out = {
        "kind": kind,
        "id": o.id,
        "name": o.name,
        "class": o.class_,
        "coordinates": pair(o.coordinates),
        "size": size(o.size),
        "rotation": o.rotation,
        "visible": o.visible,
        "properties": props(o.properties),
    }
    if kind in ("polygon", "polyline"):
        out["points"] = [pair(p) for p in o.points]
    elif kind == "tile":
        out["gid"] = o.gid
    elif kind == "text":
        for f in ("text", "font_family", "font_size", "bold", "italic", "kerning", "strike_out", "underline",
                  "horizontal_align", "vertical_align", "wrap"):
            out[f] = getattr(o, f)
        out["color"] = scalar(o.color)
    return out


LAYER_KINDS = {"TileLayer": "tile", "ObjectLayer": "object", "ImageLayer": "image", "LayerGroup": "group"}


def layer_kind(l):
    load()
    kinds = [k for name, k in LAYER_KINDS.items() if isinstance(l, getattr(L, name))]
    return kinds[0] if len(kinds) == 1 else ("other", type(l).__name__)


def layer(l):
    kind = layer_kind(l)
    out = {
        "kind": kind,
        "name": l.name,
        "id": l.id,
        "class": l.class_,
        "opacity": l.opacity,
        "visible": l.visible,
        "offset": pair(l.offset),
        "parallax_factor": pair(l.parallax_factor),
        "tint_color": scalar(l.tint_color),
        "repeat_x": l.repeat_x,
        "repeat_y": l.repeat_y,
        "properties": props(l.properties),
        "coordinates": pair(l.coordinates),
    }
    if kind == "tile":
        out["size"] = size(l.size)
        out["data"] = grid2(l.data)
        out["chunks"] = [
            {"coordinates": pair(c.coordinates), "size": size(c.size), "data": grid2(c.data)} for c in (l.chunks or [])
        ]
    elif kind == "object":
        out["draw_order"] = l.draw_order
        out["objects"] = [obj(o) for o in l.tiled_objects]
    elif kind == "image":
        out["image"] = scalar(l.image)
        out["transparent_color"] = scalar(l.transparent_color)
    elif kind == "group":
        out["layers"] = [layer(sub) for sub in (l.layers or [])]
    return out


def tile(t):
    return {
        "id": t.id,
        "class": t.class_,
        "x": t.x,
        "y": t.y,
        "width": t.width,
        "height": t.height,
        "image": scalar(t.image),
        "image_width": t.image_width,
        "image_height": t.image_height,
        "animation": None if t.animation is None else [("frame", f.tile_id, f.duration) for f in t.animation],
        "objects": None if t.objects is None else layer(t.objects),
        "properties": props(t.properties),
    }


def wangset(ws):
    return {
        "name": ws.name,
        "wang_type": ws.wang_type,
        "tile": ws.tile,
        "class": ws.class_,
        "properties": props(ws.properties),
        "wang_colors": [
            {"name": c.name, "color": scalar(c.color), "tile": c.tile, "probability": c.probability,
             "class": c.class_, "properties": props(c.properties)}
            for c in ws.wang_colors
        ],
        "wang_tiles": {k: {"tile_id": v.tile_id, "wang_id": list(v.wang_id)} for k, v in ws.wang_tiles.items()},
    }


def tileset(t):
    load()
    return {
        "name": t.name,
        "tile_width": t.tile_width,
        "tile_height": t.tile_height,
        "tile_count": t.tile_count,
        "columns": t.columns,
        "firstgid": t.firstgid,
        "type": t.type,
        "tile_render_size": t.tile_render_size,
        "fill_mode": t.fill_mode,
        "spacing": t.spacing,
        "margin": t.margin,
        "tiled_version": t.tiled_version,
        "version": t.version,
        "image": scalar(t.image),
        "image_width": t.image_width,
        "image_height": t.image_height,
        "transparent_color": scalar(t.transparent_color),
        "background_color": scalar(t.background_color),
        "class": t.class_,
        "tile_offset": pair(t.tile_offset),
        "grid": None if t.grid is None else ("grid", t.grid.orientation, t.grid.width, t.grid.height),
        "transformations": None if t.transformations is None else {
            f: getattr(t.transformations, f) for f in ("hflip", "vflip", "rotate", "prefer_untransformed")},
        "alignment": t.alignment,
        "properties": props(t.properties),
        "tiles": {k: tile(v) for k, v in (t.tiles or {}).items()},
        "wang_sets": [wangset(ws) for ws in (t.wang_sets or [])],
    }


def map_(m):
    load()
    return {
        "map_file": scalar(m.map_file),
        "infinite": m.infinite,
        "map_size": size(m.map_size),
        "tile_size": size(m.tile_size),
        "next_layer_id": m.next_layer_id,
        "next_object_id": m.next_object_id,
        "orientation": m.orientation,
        "render_order": m.render_order,
        "tiled_version": m.tiled_version,
        "version": m.version,
        "parallax_origin": pair(m.parallax_origin),
        "class": m.class_,
        "background_color": scalar(m.background_color),
        "hex_side_length": m.hex_side_length,
        "stagger_axis": m.stagger_axis,
        "stagger_index": m.stagger_index,
        "properties": props(m.properties),
        "layers": [layer(l) for l in m.layers],
        "tilesets": {k: tileset(v) for k, v in m.tilesets.items()},
    }


def world(w):
    load()
    return {
        "only_show_adjacent": w.only_show_adjacent,
        "maps": [
            {"map_file": scalar(m.map_file), "size": size(m.size), "coordinates": pair(m.coordinates)} for m in w.maps
        ],
    }


# --------------------------------------------------------------------------- comparison


def diff(exp, obs, where="", out=None, limit=8, ignore=()):
    """Differences between an expected and an observed canonical value.  int and float are
    interchangeable, bool and number, str and path are not."""
    if out is None:
        out = []
    if len(out) >= limit or exp == ("any",) or exp is obs:
        return out
    if isinstance(exp, tuple) and exp and exp[0] == "abspath":
        ok = isinstance(obs, tuple) and obs[0] == "path" and os.path.isabs(obs[1])
        if not ok or os.path.realpath(obs[1]) != os.path.realpath(exp[1]):
            out.append(f"{where}: expected absolute path of {exp[1]!r}, got {obs!r}")
        return out
    if isinstance(exp, dict) and isinstance(obs, dict):
        for key in exp:
            if key in ignore:
                continue
            if key not in obs:
                out.append(f"{where}.{key}: missing (expected {_short(exp[key])})")
            else:
                diff(exp[key], obs[key], f"{where}.{key}", out, limit, ignore)
        for key in obs:
            if key not in exp and key not in ignore:
                out.append(f"{where}.{key}: unexpected {_short(obs[key])}")
        return out
    if type(exp) in (list, tuple) and type(exp) is type(obs):
        if len(exp) != len(obs):
            out.append(f"{where}: expected {len(exp)} items {_short(exp)}, got {len(obs)} {_short(obs)}")
            return out
        if exp and type(exp) is list and all(type(v) is int for v in exp) and all(type(v) is int for v in obs):
            if exp != obs:
                out.append(f"{where}: expected {_short(exp)}, got {_short(obs)}")
            return out
        for i, (a, b) in enumerate(zip(exp, obs)):
            diff(a, b, f"{where}[{i}]", out, limit, ignore)
        return out
    if isinstance(exp, bool) or isinstance(obs, bool):
        if type(exp) is not type(obs) or exp != obs:
            out.append(f"{where}: expected {_short(exp)}, got {_short(obs)}")
        return out
    if isinstance(exp, (int, float)) and isinstance(obs, (int, float)):
        if exp != obs:
            out.append(f"{where}: expected {exp!r}, got {obs!r}")
        return out
    if type(exp) is not type(obs) or exp != obs:
        out.append(f"{where}: expected {_short(exp)}, got {_short(obs)}")
    return out


def _short(v):
    text = repr(v)
    return text if len(text) <= 160 else text[:157] + "..."
