"""Reference model: the canonical value every abstract document must parse to, computed
from the document alone (no code under test)."""
import os
import posixpath
from pathlib import PurePosixPath

FLAGS = 0xF0000000  # flip/rotation bits of a global tile id
ANY = ("any",)

TEXT_DEFAULTS = {
    "color": ("color", 255, 255, 255, 255),
    "fontfamily": "sans-serif",
    "pixelsize": 16,
    "bold": False,
    "italic": False,
    "kerning": True,
    "strikeout": False,
    "underline": False,
    "halign": "left",
    "valign": "top",
    "wrap": False,
}
TEXT_FIELDS = {
    "color": "color",
    "fontfamily": "font_family",
    "pixelsize": "font_size",
    "bold": "bold",
    "italic": "italic",
    "kerning": "kerning",
    "strikeout": "strike_out",
    "underline": "underline",
    "halign": "horizontal_align",
    "valign": "vertical_align",
    "wrap": "wrap",
}


def color(text):
    digits = text[1:] if text.startswith("#") else text
    channel = [int(digits[i : i + 2], 16) for i in range(0, len(digits), 2)]
    if len(channel) == 3:
        return ("color", channel[0], channel[1], channel[2], 255)
    a, r, g, b = channel
    return ("color", r, g, b, a)


def opt_color(text):
    return None if text is None else color(text)


def path(text):
    return ("path", str(PurePosixPath(text)))


def props(items):
    """None/empty are the same; 'class' values are not claimed."""
    out = {}
    for item in items or []:
        name, type_, value = item[:3]
        if type_ == "class":
            continue
        if type_ == "file":
            out[name] = path(value)
        elif type_ == "color":
            out[name] = color(value)
        else:
            out[name] = value
    return out


def class_props(items):
    return {i[0] for i in items or [] if i[1] == "class"}


def rows(gids, width):
    return [list(gids[i : i + width]) for i in range(0, len(gids), width)]


def overlay(tpl_obj, inst):
    """Template overlaid by instance (abstract level)."""
    out = {k: v for k, v in tpl_obj.items() if k not in ("id", "x", "y")}
    for key, value in inst.items():
        if key in ("template", "spell"):
            continue
        if key == "props":
            merged = {p[0]: p for p in out.get("props") or []}
            for p in value:
                merged[p[0]] = p
            out["props"] = list(merged.values())
        else:
            out[key] = value
    return out


class Expect:
    def __init__(self, doc, root, fmt, writer):
        self.doc, self.root, self.fmt, self.w = doc, root, fmt, writer

    def obj(self, o):
        from_template = "template" in o
        tpl = None
        if from_template:
            tpl = self.doc["templates"][o["template"]]
            own_tile = o.get("shape", {}).get("k") == "tile"
            o = overlay(tpl["obj"], o)
        shape = o.get("shape") or {"k": "rect"}
        out = {
            "kind": shape["k"],
            "id": o["id"],
            "name": o.get("name", ""),
            "class": o.get("class", ""),
            "coordinates": ("pair", o["x"], o["y"]),
            "size": ("size", o.get("w", 0), o.get("h", 0)),
            "rotation": o.get("rotation", 0),
            "visible": o.get("visible", True),
            "properties": props(o.get("props")),
        }
        kind = shape["k"]
        if kind in ("polygon", "polyline"):
            out["points"] = [("pair", x, y) for x, y in shape["points"]]
        elif kind == "tile":
            out["gid"] = shape["gid"]
            if from_template and not own_tile:
                # which tile this has to designate: (tileset document, local id, flips)
                gid = shape["gid"]
                out["gid"] = ("tile", tpl["ts"], (gid & ~FLAGS) - 1, gid & FLAGS)
        elif kind == "text":
            out["text"] = shape["text"]
            for key, default in TEXT_DEFAULTS.items():
                value = shape.get(key, default)
                out[TEXT_FIELDS[key]] = color(value) if key == "color" and key in shape else value
        return out

    def layer(self, l):
        out = {
            "kind": l["k"],
            "name": l.get("name", ""),
            "id": l.get("id"),
            "class": l.get("class"),
            "opacity": l.get("opacity", 1),
            "visible": l.get("visible", True),
            "offset": ("pair", l.get("offsetx", 0), l.get("offsety", 0)),
            "parallax_factor": ("pair", l.get("parallaxx", 1), l.get("parallaxy", 1)),
            "tint_color": opt_color(l.get("tint")),
            "repeat_x": l.get("repeatx", False),
            "repeat_y": l.get("repeaty", False),
            "properties": props(l.get("props")),
            "coordinates": ("pair", 0, 0),
        }
        if l["k"] == "tile":
            out["size"] = ("size", l["w"], l["h"])
            if "chunks" in l:
                out["data"] = None
                out["chunks"] = [
                    {"coordinates": ("pair", c["x"], c["y"]), "size": ("size", c["w"], c["h"]), "data": rows(c["gids"], c["w"])}
                    for c in l["chunks"]
                ]
                if self.fmt == "json" and "startx" in l:
                    out["coordinates"] = ("pair", l["startx"], l["starty"])
            else:
                out["data"] = rows(l["gids"], l["w"])
                out["chunks"] = []
        elif l["k"] == "object":
            out["draw_order"] = l.get("draworder", "topdown")
            out["objects"] = [self.obj(o) for o in l["objects"]]
        elif l["k"] == "image":
            out["image"] = path(l["image"])
            out["transparent_color"] = opt_color(l.get("trans"))
        else:
            out["layers"] = [self.layer(sub) for sub in l["layers"]]
        return out

    def image(self, src, owner_file):
        """owner_file: the external tileset's file, or None for paths that stay as written"""
        if owner_file is None:
            return path(src)
        return ("abspath", os.path.join(self.root, posixpath.dirname(owner_file), src))

    def tile(self, t, owner_file):
        im = t.get("image")
        out = {
            "id": t["id"],
            "class": t.get("class"),
            "x": t.get("x", 0),
            "y": t.get("y", 0),
            "width": t.get("w", (im or {}).get("w", 0)),
            "height": t.get("h", (im or {}).get("h", 0)),
            "image": self.image(im["src"], owner_file) if im else None,
            "image_width": (im or {}).get("w"),
            "image_height": (im or {}).get("h"),
            "animation": [("frame", i, d) for i, d in t["anim"]] if "anim" in t else None,
            "objects": self.layer(t["objects"]) if "objects" in t else None,
            "properties": props(t.get("props")),
        }
        return out

    def wangset(self, ws):
        return {
            "name": ws["name"],
            "wang_type": ws["type"],
            "tile": ws["tile"],
            "class": ws.get("class"),
            "properties": props(ws.get("props")),
            "wang_colors": [
                {"name": c["name"], "color": color(c["color"]), "tile": c["tile"], "probability": c["prob"],
                 "class": c.get("class"), "properties": props(c.get("props"))}
                for c in ws["colors"]
            ],
            "wang_tiles": {tile: {"tile_id": tile, "wang_id": list(ids)} for tile, ids in ws["tiles"]},
        }

    def tileset(self, t, firstgid, owner_file):
        im = t.get("image") or {}
        return {
            "name": t["name"],
            "tile_width": t["tw"],
            "tile_height": t["th"],
            "tile_count": t["count"],
            "columns": t["cols"],
            "firstgid": firstgid,
            "type": "tileset",
            "tile_render_size": t.get("rendersize", "tile"),
            "fill_mode": t.get("fillmode", "stretch"),
            "spacing": t.get("spacing", 0),
            "margin": t.get("margin", 0),
            "tiled_version": t.get("tiledversion"),
            "version": t.get("version"),
            "image": self.image(im["src"], owner_file) if im else None,
            "image_width": im.get("w"),
            "image_height": im.get("h"),
            "transparent_color": opt_color(im.get("trans")),
            "background_color": opt_color(t.get("bg")),
            "class": t.get("class"),
            "tile_offset": ("pair", *t["offset"]) if "offset" in t else None,
            "grid": ("grid", t["grid"]["o"], t["grid"]["w"], t["grid"]["h"]) if "grid" in t else None,
            "transformations": (
                {"hflip": t["transf"]["h"], "vflip": t["transf"]["v"], "rotate": t["transf"]["r"],
                 "prefer_untransformed": t["transf"]["p"]} if "transf" in t else None),
            "alignment": t.get("align"),
            "properties": props(t.get("props")),
            "tiles": {tile["id"]: self.tile(tile, owner_file) for tile in t.get("tiles", [])},
            "wang_sets": [self.wangset(ws) for ws in t.get("wangsets", [])],
        }

    def map_tilesets(self):
        out = {}
        for i, ts in enumerate(self.doc.get("tilesets", [])):
            if ts["ref"] in ("embed", "ext"):
                owner = self.w.ts_path(i) if ts["ref"] == "ext" else None
                out[ts["firstgid"]] = self.tileset(ts["def"], ts["firstgid"], owner)
        return out

    def map(self):
        m = self.doc["map"]
        return {
            "map_file": ("path", os.path.join(self.root, self.w.map_path())),
            "infinite": m["infinite"],
            "map_size": ("size", m["width"], m["height"]),
            "tile_size": ("size", m["tilewidth"], m["tileheight"]),
            "next_layer_id": m["nextlayerid"],
            "next_object_id": m["nextobjectid"],
            "orientation": m["orientation"],
            "render_order": m["renderorder"],
            "tiled_version": m["tiledversion"],
            "version": m["version"],
            "parallax_origin": ("pair", m.get("parallaxoriginx", 0), m.get("parallaxoriginy", 0)),
            "class": m.get("class"),
            "background_color": opt_color(m.get("backgroundcolor")),
            "hex_side_length": m.get("hexsidelength"),
            "stagger_axis": m.get("staggeraxis"),
            "stagger_index": m.get("staggerindex"),
            "properties": props(m.get("props")),
            "layers": [self.layer(l) for l in m["layers"]],
            "tilesets": self.map_tilesets(),
        }
