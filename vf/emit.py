"""Independent writer: turns an abstract project document into the files Tiled would save,
as TMX/TSX/TX or as JSON.  Nothing here uses the code under test."""
import base64
import gzip
import io
import posixpath
import struct
import zlib

from .tree import X, json_bytes, xml_bytes


def num(value):
    """Number as Tiled/C locale text."""
    if isinstance(value, bool):
        return "1" if value else "0"
    if isinstance(value, int):
        return str(value)
    if value == int(value) and abs(value) < 1e15:
        return str(int(value))
    return repr(value)


def flag(value):
    return "1" if value else "0"


def pack(gids):
    return struct.pack("<%dI" % len(gids), *gids)


def compress(raw, kind, level):
    if kind == "zlib":
        return zlib.compress(raw, level)
    if kind == "gzip":
        buf = io.BytesIO()
        with gzip.GzipFile(fileobj=buf, mode="wb", compresslevel=level, mtime=0) as f:
            f.write(raw)
        return buf.getvalue()
    if kind == "zstd":
        from .standin import zstd

        return zstd.compress(raw, level) if level else raw
    return raw


def b64_payload(gids, enc):
    return base64.b64encode(compress(pack(gids), enc.get("c", ""), enc.get("lvl", 6))).decode()


def wrap64(text, enc):
    """base64 text as stored in the XML: Tiled indents it; other writers break lines."""
    ws = enc.get("ws", 0)
    if ws == 1:
        return "\n   " + text + "\n  "
    if ws == 2:
        return "\n" + "\n".join(text[i : i + 76] for i in range(0, len(text), 76)) + "\n"
    if ws == 3:
        return "\n\n" + "\n\n".join("\t  " + text[i : i + 10] for i in range(0, len(text), 10)) + "\n\n"
    if ws == 4:
        return " \t" + text + "\t \n"
    return text


def csv_text(gids, width, enc):
    ws = enc.get("ws", 0)
    rows = [gids[i : i + width] for i in range(0, len(gids), width)]
    if ws == 1:
        return "\n" + ",\n".join(",".join(map(str, r)) for r in rows) + "\n"
    if ws == 2:
        return " " + " , ".join(map(str, gids)) + "\n \t"
    if ws == 3:
        return "\n\n" + ",\n\n".join(",".join(map(str, r)) for r in rows) + "\n\n"
    if ws == 4:
        # not one row per line
        return "\n" + "".join(str(g) + ("" if i == len(gids) - 1 else ",\n\t" if i % 5 == 3 else "\n," if i % 5 == 4 else ",") for i, g in enumerate(gids)) + "\n"
    return ",".join(map(str, gids))


# --------------------------------------------------------------------------- properties


def props_tmx(props, kind=None):
    if not props:
        return []
    kids = []
    for prop in props:
        name, type_, value = prop[:3]
        opts = prop[3] if len(prop) > 3 else {}
        attrs = {"name": name}
        if not (type_ == "string" and opts.get("omit", True)):
            attrs["type"] = type_
        if opts.get("ptype"):
            attrs["propertytype"] = opts["ptype"]
        if type_ == "class":
            kids.append(X("property", attrs, props_tmx(value)))
            continue
        if type_ == "bool":
            attrs["value"] = "true" if value else "false"
        elif type_ in ("int", "float", "object"):
            attrs["value"] = num(value)
        elif type_ == "string" and (opts.get("text") or "\n" in value) and not opts.get("attr"):
            kids.append(X("property", attrs, text=value))
            continue
        else:
            attrs["value"] = value
        kids.append(X("property", attrs))
    return [X("properties", {}, kids)]


def _plain(props):
    return {p[0]: (_plain(p[2]) if p[1] == "class" else p[2]) for p in props}


def props_json(props, legacy=False):
    if legacy:
        return _plain(props)
    out = []
    for prop in props:
        name, type_, value = prop[:3]
        opts = prop[3] if len(prop) > 3 else {}
        entry = {"name": name}
        if not (type_ == "string" and opts.get("omit_json")):
            entry["type"] = type_
        if opts.get("ptype"):
            entry["propertytype"] = opts["ptype"]
        entry["value"] = _plain(value) if type_ == "class" else value
        out.append(entry)
    return out


# ------------------------------------------------------------------------------ writers


class Writer:
    """knobs: classkey ("class"|"type") spelling for objects and tiles; both_class; legacy
    (JSON spellings of old Tiled versions); strip_optional..."""

    def __init__(self, doc, fmt, knobs=None):
        self.doc = doc
        self.fmt = fmt
        self.k = doc.get("knobs", {}) if knobs is None else knobs
        self.files = {}

    # -- paths
    def map_path(self):
        m = self.doc["map"]
        ext = self.k.get("map_ext", "tmx" if self.fmt == "tmx" else "json")
        return posixpath.join(self.doc.get("dir", ""), self.doc.get("name", "map") + ("." + ext if ext else ""))

    def ts_fmt(self, ts):
        f = ts.get("fmt", "same")
        return self.fmt if f == "same" else f

    def ts_path(self, i):
        ts = self.doc["tilesets"][i]
        if "file_ext" in ts:
            ext = ts["file_ext"]
        else:
            ext = "tsx" if self.ts_fmt(ts) == "tmx" else "json"
        return posixpath.join(ts.get("dir", ""), ts.get("file", "ts%d" % i) + ("." + ext if ext else ""))

    def tpl_path(self, i):
        tpl = self.doc["templates"][i]
        f = tpl.get("fmt", "same")
        f = self.fmt if f == "same" else f
        if "file_ext" in tpl:
            ext = tpl["file_ext"]
        else:
            ext = "tx" if f == "tmx" else "json"
        return posixpath.join(tpl.get("dir", ""), tpl.get("file", "tpl%d" % i) + ("." + ext if ext else ""))

    def rel(self, target, source_file, spelling=0):
        base = posixpath.dirname(source_file)
        path = posixpath.relpath(target, base or ".")
        if spelling == 1:
            path = "./" + path
        elif spelling == 2 and base:
            path = "../" + posixpath.basename(base) + "/" + path
        elif spelling == 3 and self.k.get("root"):
            path = posixpath.join(self.k["root"], target)
        return path

    # -- objects
    def obj_tmx(self, o, holder):
        a = {}
        if "id" in o:
            a["id"] = str(o["id"])
        if "template" in o:
            a["template"] = self.rel(self.tpl_path(o["template"]), holder, o.get("spell", 0))
        if "name" in o:
            a["name"] = o["name"]
        self.classes(a, o)
        shape = o.get("shape")
        if shape and shape["k"] == "tile":
            a["gid"] = str(shape["gid"])
        if "x" in o:
            a["x"], a["y"] = num(o["x"]), num(o["y"])
        for key, attr in (("w", "width"), ("h", "height"), ("rotation", "rotation")):
            if key in o:
                a[attr] = num(o[key])
        if "visible" in o:
            a["visible"] = flag(o["visible"])
        kids = props_tmx(o.get("props"))
        if shape:
            kind = shape["k"]
            if kind in ("ellipse", "point"):
                kids.append(X(kind))
            elif kind in ("polygon", "polyline"):
                kids.append(X(kind, {"points": " ".join(num(x) + "," + num(y) for x, y in shape["points"])}))
            elif kind == "text":
                t = {}
                for key in ("fontfamily", "color", "halign", "valign"):
                    if key in shape:
                        t[key] = shape[key]
                if "pixelsize" in shape:
                    t["pixelsize"] = num(shape["pixelsize"])
                for key in ("wrap", "bold", "italic", "underline", "strikeout", "kerning"):
                    if key in shape:
                        t[key] = flag(shape[key])
                kids.append(X("text", t, text=shape["text"] or None))
        return X("object", a, kids)

    def classes(self, target, thing):
        if "class" in thing:
            key = self.k.get("classkey", "class")
            target[key] = thing["class"]
            if self.k.get("both_class") is not None:
                target["class"] = thing["class"]
                target["type"] = self.k["both_class"]

    def obj_json(self, o, holder, template=False):
        j = {}
        if "id" in o:
            j["id"] = o["id"]
        if "template" in o:
            j["template"] = self.rel(self.tpl_path(o["template"]), holder, o.get("spell", 0))
        full = "template" not in o
        if "name" in o or full:
            j["name"] = o.get("name", "")
        self.classes(j, o)
        if full and self.k.get("empty_class") and "class" not in o:
            j[self.k.get("classkey", "class")] = ""
        shape = o.get("shape")
        if shape and shape["k"] == "tile":
            j["gid"] = shape["gid"]
        if "x" in o:
            j["x"], j["y"] = o["x"], o["y"]
        for key, name in (("w", "width"), ("h", "height"), ("rotation", "rotation")):
            if key in o or full:
                j[name] = o.get(key, 0)
        if "visible" in o or full:
            j["visible"] = o.get("visible", True)
        if o.get("props"):
            j["properties"] = props_json(o["props"], self.k.get("legacy_props"))
        if shape:
            kind = shape["k"]
            if kind in ("ellipse", "point"):
                j[kind] = True
            elif kind in ("polygon", "polyline"):
                j[kind] = [{"x": x, "y": y} for x, y in shape["points"]]
            elif kind == "text":
                t = {"text": shape["text"]}
                for key in (
                    "fontfamily color halign valign pixelsize wrap bold italic underline strikeout kerning"
                ).split():
                    if key in shape:
                        t[key] = shape[key]
                j["text"] = t
        return j

    # -- layers
    LAYER_TAG = {"tile": "layer", "object": "objectgroup", "image": "imagelayer", "group": "group"}
    LAYER_TYPE = {"tile": "tilelayer", "object": "objectgroup", "image": "imagelayer", "group": "group"}

    def layer_tmx(self, l, holder):
        a = {}
        if "id" in l:
            a["id"] = str(l["id"])
        if l.get("name", "") != "" or l.get("explicit_name"):
            a["name"] = l["name"]
        if "class" in l:
            a["class"] = l["class"]
        if l["k"] == "tile":
            a["width"], a["height"] = str(l["w"]), str(l["h"])
        for key in ("opacity", "offsetx", "offsety", "parallaxx", "parallaxy"):
            if key in l:
                a[key] = num(l[key])
        for key in ("visible", "repeatx", "repeaty", "locked"):
            if key in l:
                a[key] = flag(l[key])
        if "tint" in l:
            a["tintcolor"] = l["tint"]
        if "draworder" in l:
            a["draworder"] = l["draworder"]
        kids = props_tmx(l.get("props"))
        if l["k"] == "tile":
            kids.append(self.data_tmx(l))
        elif l["k"] == "object":
            kids += [self.obj_tmx(o, holder) for o in l["objects"]]
        elif l["k"] == "image":
            i = {"source": l["image"]}
            if "trans" in l:
                i["trans"] = l["trans"]
            if "iw" in l:
                i["width"], i["height"] = str(l["iw"]), str(l["ih"])
            kids.append(X("image", i))
        else:
            kids += [self.layer_tmx(sub, holder) for sub in l["layers"]]
        return X(self.LAYER_TAG[l["k"]], a, kids)

    def data_tmx(self, l):
        enc = l["enc"]
        a = {}
        if enc["e"] != "elements":
            a["encoding"] = enc["e"]
            if enc["e"] == "base64" and enc.get("c"):
                a["compression"] = enc["c"]
            elif enc["e"] == "base64" and enc.get("explicit"):
                a["compression"] = ""
        if "chunks" in l:
            return X("data", a, [self.cells_tmx("chunk", {
                "x": str(c["x"]), "y": str(c["y"]), "width": str(c["w"]), "height": str(c["h"])
            }, c["gids"], c["w"], enc) for c in l["chunks"]])
        return self.cells_tmx("data", a, l["gids"], l["w"], enc)

    def cells_tmx(self, tag, attrs, gids, width, enc):
        if enc["e"] == "elements":
            kids = []
            for gid in gids:
                kids.append(X("tile", {} if gid == 0 and enc.get("omit0", True) else {"gid": str(gid)}))
            return X(tag, attrs, kids)
        if enc["e"] == "csv":
            return X(tag, attrs, text=csv_text(gids, width, enc))
        return X(tag, attrs, text=wrap64(b64_payload(gids, enc), enc))

    def cells_json(self, gids, enc):
        if enc["e"] == "base64":
            return b64_payload(gids, enc)
        return list(gids)

    def layer_json(self, l, holder):
        j = {"type": self.LAYER_TYPE[l["k"]], "name": l.get("name", ""), "x": 0, "y": 0}
        if "id" in l:
            j["id"] = l["id"]
        if "class" in l:
            j["class"] = l["class"]
        j["opacity"] = l.get("opacity", 1)
        j["visible"] = l.get("visible", True)
        for key in ("offsetx", "offsety", "parallaxx", "parallaxy", "repeatx", "repeaty", "locked"):
            if key in l:
                j[key] = l[key]
        if "tint" in l:
            j["tintcolor"] = l["tint"]
        if l.get("props"):
            j["properties"] = props_json(l["props"], self.k.get("legacy_props"))
        if l["k"] == "tile":
            enc = l["enc"]
            j["width"], j["height"] = l["w"], l["h"]
            if enc["e"] == "base64":
                j["encoding"] = "base64"
                if enc.get("c") or enc.get("explicit", True):
                    j["compression"] = enc.get("c", "")
            elif enc.get("explicit"):
                j["encoding"] = "csv"
            if "chunks" in l:
                j["chunks"] = [
                    {"x": c["x"], "y": c["y"], "width": c["w"], "height": c["h"], "data": self.cells_json(c["gids"], enc)}
                    for c in l["chunks"]
                ]
                if "startx" in l:
                    j["startx"], j["starty"] = l["startx"], l["starty"]
            else:
                j["data"] = self.cells_json(l["gids"], enc)
        elif l["k"] == "object":
            j["draworder"] = l.get("draworder", "topdown")
            j["objects"] = [self.obj_json(o, holder) for o in l["objects"]]
        elif l["k"] == "image":
            j["image"] = l["image"]
            if "trans" in l:
                j["transparentcolor"] = l["trans"]
            if "iw" in l:
                j["imagewidth"], j["imageheight"] = l["iw"], l["ih"]
        else:
            j["layers"] = [self.layer_json(sub, holder) for sub in l["layers"]]
        return j

    # -- tilesets
    def image_tmx(self, im):
        a = {"source": im["src"]}
        if "trans" in im:
            a["trans"] = im["trans"]
        if "w" in im:
            a["width"] = str(im["w"])
        if "h" in im:
            a["height"] = str(im["h"])
        return X("image", a)

    def tileset_tmx(self, t, firstgid=None):
        a = {}
        if firstgid is not None:
            a["firstgid"] = str(firstgid)
        for key, attr in (("version", "version"), ("tiledversion", "tiledversion"), ("name", "name"), ("class", "class")):
            if key in t:
                a[attr] = t[key]
        a.update(tilewidth=str(t["tw"]), tileheight=str(t["th"]))
        for key, attr in (("spacing", "spacing"), ("margin", "margin")):
            if key in t:
                a[attr] = str(t[key])
        a.update(tilecount=str(t["count"]), columns=str(t["cols"]))
        if "no_columns" in self.k.get("legacy", ()):
            del a["columns"]
        for key, attr in (("align", "objectalignment"), ("rendersize", "tilerendersize"), ("fillmode", "fillmode"), ("bg", "backgroundcolor")):
            if key in t:
                a[attr] = t[key]
        kids = []
        if "offset" in t:
            kids.append(X("tileoffset", {"x": str(t["offset"][0]), "y": str(t["offset"][1])}))
        if "grid" in t:
            g = t["grid"]
            kids.append(X("grid", {"orientation": g["o"], "width": str(g["w"]), "height": str(g["h"])}))
        if "transf" in t:
            f = t["transf"]
            kids.append(X("transformations", {
                "hflip": flag(f["h"]), "vflip": flag(f["v"]), "rotate": flag(f["r"]), "preferuntransformed": flag(f["p"])}))
        kids += props_tmx(t.get("props"))
        if "image" in t:
            kids.append(self.image_tmx(t["image"]))
        for tile in t.get("tiles", []):
            ta = {"id": str(tile["id"])}
            self.classes(ta, tile)
            for key, attr in (("x", "x"), ("y", "y"), ("w", "width"), ("h", "height")):
                if key in tile:
                    ta[attr] = str(tile[key])
            tk = props_tmx(tile.get("props"))
            if "image" in tile:
                tk.append(self.image_tmx(tile["image"]))
            if "objects" in tile:
                tk.append(self.layer_tmx(tile["objects"], ""))
            if "anim" in tile:
                tk.append(X("animation", {}, [X("frame", {"tileid": str(i), "duration": str(d)}) for i, d in tile["anim"]]))
            kids.append(X("tile", ta, tk))
        if "wangsets" in t:
            sets = []
            for ws in t["wangsets"]:
                wa = {"name": ws["name"]}
                if "class" in ws:
                    wa["class"] = ws["class"]
                wa["type"], wa["tile"] = ws["type"], str(ws["tile"])
                wk = props_tmx(ws.get("props"))
                for c in ws["colors"]:
                    ca = {"name": c["name"]}
                    if "class" in c:
                        ca["class"] = c["class"]
                    ca.update(color=c["color"], tile=str(c["tile"]), probability=num(c["prob"]))
                    wk.append(X("wangcolor", ca, props_tmx(c.get("props"))))
                for tile, ids in ws["tiles"]:
                    wk.append(X("wangtile", {"tileid": str(tile), "wangid": ",".join(map(str, ids))}))
                sets.append(X("wangset", wa, wk))
            kids.append(X("wangsets", {}, sets))
        return X("tileset", a, kids)

    def tileset_json(self, t, firstgid=None):
        legacy = self.k.get("legacy", ())
        lp = self.k.get("legacy_props")
        j = {"type": "tileset"}
        if "notype" in legacy:
            del j["type"]
        if firstgid is not None:
            j["firstgid"] = firstgid
        for key, attr in (("version", "version"), ("tiledversion", "tiledversion"), ("name", "name"), ("class", "class")):
            if key in t:
                j[attr] = t[key]
        if "version" in t and "num_version" in legacy:
            j["version"] = numeric_version(t["version"])
        j.update(tilewidth=t["tw"], tileheight=t["th"], spacing=t.get("spacing", 0), margin=t.get("margin", 0),
                 tilecount=t["count"], columns=t["cols"])
        if "no_columns" in legacy:
            del j["columns"]
        for key, attr in (("align", "objectalignment"), ("rendersize", "tilerendersize"), ("fillmode", "fillmode"), ("bg", "backgroundcolor")):
            if key in t:
                j[attr] = t[key]
        if "offset" in t:
            j["tileoffset"] = {"x": t["offset"][0], "y": t["offset"][1]}
        if "grid" in t:
            g = t["grid"]
            j["grid"] = {"orientation": g["o"], "width": g["w"], "height": g["h"]}
        if "transf" in t:
            f = t["transf"]
            j["transformations"] = {"hflip": f["h"], "vflip": f["v"], "rotate": f["r"], "preferuntransformed": f["p"]}
        if t.get("props"):
            j["properties"] = props_json(t["props"], lp)
        if "image" in t:
            im = t["image"]
            j["image"] = im["src"]
            if "w" in im:
                j["imagewidth"] = im["w"]
            if "h" in im:
                j["imageheight"] = im["h"]
            if "trans" in im:
                j["transparentcolor"] = im["trans"]
        if t.get("tiles"):
            tiles = []
            for tile in t["tiles"]:
                tj = {"id": tile["id"]}
                self.classes(tj, tile)
                for key, attr in (("x", "x"), ("y", "y"), ("w", "width"), ("h", "height")):
                    if key in tile:
                        tj[attr] = tile[key]
                if tile.get("props"):
                    tj["properties"] = props_json(tile["props"], lp)
                if "image" in tile:
                    im = tile["image"]
                    tj["image"] = im["src"]
                    if "w" in im:
                        tj["imagewidth"] = im["w"]
                    if "h" in im:
                        tj["imageheight"] = im["h"]
                if "objects" in tile:
                    tj["objectgroup"] = self.layer_json(tile["objects"], "")
                if "anim" in tile:
                    tj["animation"] = [{"duration": d, "tileid": i} for i, d in tile["anim"]]
                tiles.append(tj)
            if "dict_tiles" in legacy:
                j["tiles"] = {str(tj.pop("id")): tj for tj in tiles}
            else:
                j["tiles"] = tiles
        if "wangsets" in t:
            sets = []
            for ws in t["wangsets"]:
                wj = {"name": ws["name"], "type": ws["type"], "tile": ws["tile"]}
                if "class" in ws:
                    wj["class"] = ws["class"]
                if ws.get("props"):
                    wj["properties"] = props_json(ws["props"], lp)
                wj["colors"] = []
                for c in ws["colors"]:
                    cj = {"name": c["name"], "color": c["color"], "tile": c["tile"], "probability": c["prob"]}
                    if "class" in c:
                        cj["class"] = c["class"]
                    if c.get("props"):
                        cj["properties"] = props_json(c["props"], lp)
                    wj["colors"].append(cj)
                wj["wangtiles"] = [{"tileid": tile, "wangid": list(ids)} for tile, ids in ws["tiles"]]
                sets.append(wj)
            j["wangsets"] = sets
        return j

    # -- templates
    def with_knobs(self, tpl):
        """A template may have been saved by another version of Tiled than the map."""
        return Writer(self.doc, self.fmt, {**self.k, **tpl.get("knobs", {})})

    def template_tmx(self, tpl, path):
        kids = []
        if "ts" in tpl:
            kids.append(X("tileset", {"firstgid": "1", "source": self.rel(self.ts_path(tpl["ts"]), path, tpl.get("spell", 0))}))
        kids.append(self.with_knobs(tpl).obj_tmx(tpl["obj"], path))
        return X("template", {}, kids)

    def template_json(self, tpl, path):
        j = {"type": "template", "object": self.with_knobs(tpl).obj_json(tpl["obj"], path)}
        if "ts" in tpl:
            j["tileset"] = {"firstgid": 1, "source": self.rel(self.ts_path(tpl["ts"]), path, tpl.get("spell", 0))}
        return j

    # -- map
    MAP_NUM = (("hexsidelength", "hexsidelength"), ("parallaxoriginx", "parallaxoriginx"), ("parallaxoriginy", "parallaxoriginy"))
    MAP_STR = (("class", "class"), ("staggeraxis", "staggeraxis"), ("staggerindex", "staggerindex"), ("backgroundcolor", "backgroundcolor"))

    def map_tmx(self):
        m, path = self.doc["map"], self.map_path()
        a = {"version": m["version"], "tiledversion": m["tiledversion"], "orientation": m["orientation"],
             "renderorder": m["renderorder"], "width": str(m["width"]), "height": str(m["height"]),
             "tilewidth": str(m["tilewidth"]), "tileheight": str(m["tileheight"]), "infinite": flag(m["infinite"])}
        for key, attr in self.MAP_NUM:
            if key in m:
                a[attr] = num(m[key])
        for key, attr in self.MAP_STR:
            if key in m:
                a[attr] = m[key]
        a["nextlayerid"], a["nextobjectid"] = str(m["nextlayerid"]), str(m["nextobjectid"])
        for key in ("tiledversion", "infinite", "nextlayerid"):
            if "no_" + key in self.k.get("legacy", ()):
                del a[key]
        kids = props_tmx(m.get("props"))
        for i, ts in enumerate(self.doc.get("tilesets", [])):
            if ts["ref"] == "embed":
                kids.append(self.tileset_tmx(ts["def"], ts["firstgid"]))
            elif ts["ref"] == "ext":
                kids.append(X("tileset", {"firstgid": str(ts["firstgid"]), "source": self.rel(self.ts_path(i), path, ts.get("spell", 0))}))
        kids += [self.layer_tmx(l, path) for l in m["layers"]]
        return X("map", a, kids)

    def map_json(self):
        m, path = self.doc["map"], self.map_path()
        legacy = self.k.get("legacy", ())
        j = {"type": "map", "version": m["version"], "tiledversion": m["tiledversion"], "orientation": m["orientation"],
             "renderorder": m["renderorder"], "width": m["width"], "height": m["height"], "tilewidth": m["tilewidth"],
             "tileheight": m["tileheight"], "infinite": m["infinite"], "nextlayerid": m["nextlayerid"],
             "nextobjectid": m["nextobjectid"]}
        if "num_version" in legacy:
            j["version"] = numeric_version(m["version"])
        if "no_tiledversion" in legacy:
            del j["tiledversion"]
        if "no_infinite" in legacy:
            del j["infinite"]
        if "no_nextlayerid" in legacy:
            del j["nextlayerid"]
        for key, attr in self.MAP_NUM + self.MAP_STR:
            if key in m:
                j[attr] = m[key]
        if m.get("props"):
            j["properties"] = props_json(m["props"], self.k.get("legacy_props"))
        j["tilesets"] = []
        for i, ts in enumerate(self.doc.get("tilesets", [])):
            if ts["ref"] == "embed":
                j["tilesets"].append(self.tileset_json(ts["def"], ts["firstgid"]))
            elif ts["ref"] == "ext":
                j["tilesets"].append({"firstgid": ts["firstgid"], "source": self.rel(self.ts_path(i), path, ts.get("spell", 0))})
        j["layers"] = [self.layer_json(l, path) for l in m["layers"]]
        return j

    def trees(self):
        """relpath -> XML or JSON tree, the map first."""
        out = {self.map_path(): self.map_tmx() if self.fmt == "tmx" else self.map_json()}
        for i, ts in enumerate(self.doc.get("tilesets", [])):
            if ts["ref"] != "embed":
                out[self.ts_path(i)] = self.tileset_tmx(ts["def"]) if self.ts_fmt(ts) == "tmx" else self.tileset_json(ts["def"])
        for i, tpl in enumerate(self.doc.get("templates", [])):
            f = tpl.get("fmt", "same")
            f = self.fmt if f == "same" else f
            path = self.tpl_path(i)
            out[path] = self.template_tmx(tpl, path) if f == "tmx" else self.template_json(tpl, path)
        return out

    def contents(self, trees=None):
        """relpath -> bytes, in the layout that the document asks for"""
        return {p: to_bytes(t, self.doc.get("layout")) for p, t in (trees or self.trees()).items()}


def numeric_version(text):
    try:
        value = float(text)
    except ValueError:
        return text
    return int(value) if value == int(value) else value


def to_bytes(tree, style=None):
    if style and "xml" in style:
        style = style["xml" if isinstance(tree, X) else "json"]
    return xml_bytes(tree, style) if isinstance(tree, X) else json_bytes(tree, style)


def emit(doc, fmt, knobs=None, style=None):
    """(path of the map, {path: bytes}); all paths relative to the project root."""
    writer = Writer(doc, fmt, knobs)
    trees = writer.trees()
    return writer.map_path(), {p: to_bytes(t, style) for p, t in trees.items()}
