"""Documents with very many elements of one kind, written directly (without the writers the other
checks use), with what each element must be parsed to as a function of its number."""
import base64
import gzip
import json
import struct
import zlib
from xml.sax.saxutils import quoteattr

HEAD = dict(version="1.10", tiledversion="1.10.2", orientation="orthogonal", renderorder="right-down", width=2, height=1, tilewidth=8, tileheight=8,
            nextlayerid=9, nextobjectid=9)


def num(i, salt):
    """a value that tells element i from the others"""
    return (i * 2654435761 + salt) % 65521


def tag(name, attrs, body=""):
    text = "".join(" %s=%s" % (k, quoteattr(str(v))) for k, v in attrs.items())
    return "<%s%s>%s</%s>" % (name, text, body, name) if body else "<%s%s/>" % (name, text)


def map_file(fmt, layers="", tilesets="", infinite=False, props=""):
    """layers, tilesets, props: XML text or JSON lists"""
    if fmt == "tmx":
        return {"m.tmx": tag("map", dict(HEAD, infinite=int(infinite)), (props or "") + (tilesets or "") + (layers or "")).encode()}
    d = dict(HEAD, type="map", infinite=infinite, layers=layers or [], tilesets=tilesets or [])
    if props:
        d["properties"] = props
    return {"m.json": json.dumps(d).encode()}


def props(fmt, n, salt):
    """n properties of three types and their values by name"""
    types = ["int", "string", "bool"]
    values = [[num(i, salt), "v%d" % num(i, salt), num(i, salt) % 2 == 1][i % 3] for i in range(n)]
    expected = {"p%d" % i: v for i, v in enumerate(values)}
    if fmt == "tmx":
        spell = lambda v: str(v).lower() if isinstance(v, bool) else v  # noqa: E731
        return tag("properties", {}, "".join(tag("property", {"name": "p%d" % i, "type": types[i % 3], "value": spell(v)}) for i, v in enumerate(values))), expected
    return [{"name": "p%d" % i, "type": types[i % 3], "value": v} for i, v in enumerate(values)], expected


def obj(fmt, i, salt, **extra):
    a = dict({"id": i + 1, "name": "o%d" % num(i, salt), "x": num(i, salt) / 4, "y": i, "width": 1 + i % 7, "height": 2}, **extra)
    if fmt == "tmx":
        return tag("object", a, ["", "<ellipse/>", "<point/>"][num(i, salt) % 3])
    a.update(type="", rotation=0, visible=True)
    a.update([{}, {"ellipse": True}, {"point": True}][num(i, salt) % 3])
    return a


def obj_seen(o):
    return [type(o).__name__, o.id, o.name, tuple(o.coordinates), tuple(o.size)]


def obj_due(i, salt):
    kind = ["Rectangle", "Ellipse", "Point"][num(i, salt) % 3]
    return [kind, i + 1, "o%d" % num(i, salt), (num(i, salt) / 4, i), (1 + i % 7, 2)]


def join(fmt, items):
    items = list(items)
    return "".join(items) if fmt == "tmx" else items


def layer(fmt, kind, i=1, name="L", body="", **kw):
    """kind: layer, objectgroup, imagelayer, group; body: XML text or JSON keys"""
    if fmt == "tmx":
        return tag(kind, dict({"id": i, "name": name}, **kw), body)
    d = dict({"id": i, "name": name, "type": "tilelayer" if kind == "layer" else kind, "opacity": 1, "visible": True, "x": 0, "y": 0}, **kw)
    if kind == "objectgroup":
        d["draworder"] = "topdown"
    d.update(body or {})
    return d


def objects(fmt, items, name="L"):
    items = join(fmt, items)
    return layer(fmt, "objectgroup", name=name, body=items if fmt == "tmx" else {"objects": items})


def cells(fmt, gids, enc, chunks=None):
    """(attributes of the data, content) of one grid"""
    if enc == "csv":
        return ({"encoding": "csv"}, ",".join(map(str, gids))) if fmt == "tmx" else ({}, gids)
    if enc == "elements":
        return ({}, "".join('<tile gid="%d"/>' % g for g in gids)) if fmt == "tmx" else ({}, gids)
    raw = struct.pack("<%dI" % len(gids), *gids)
    raw = {"base64": lambda b: b, "zlib": zlib.compress, "gzip": gzip.compress}[enc](raw)
    return {"encoding": "base64", "compression": "" if enc == "base64" else enc}, base64.b64encode(raw).decode()


def tile_layer(fmt, w, h, gids, enc, **kw):
    attrs, content = cells(fmt, gids, enc)
    if fmt == "tmx":
        return layer(fmt, "layer", width=w, height=h, body=tag("data", attrs, content), **kw)
    return layer(fmt, "layer", width=w, height=h, body=dict(attrs, data=content), **kw)


TS = dict(name="T", tilewidth=8, tileheight=8, tilecount=100000, columns=4)


def tileset(fmt, body="", firstgid=None, **kw):
    a = dict(TS, **kw)
    if firstgid is not None:
        a["firstgid"] = firstgid
    if fmt == "tmx":
        return tag("tileset", a, '<image source="a.png" width="32" height="32"/>' + (body or ""))
    return dict(dict(a, image="a.png", imagewidth=32, imageheight=32, margin=0, spacing=0, type="tileset"), **(body or {}))


def put_tileset(fmt, way, text):
    """a map with the tileset embedded, or the tileset file on its own"""
    if way == "alone":
        return ("parse_tileset", {"t.tsx": text.encode()} if fmt == "tmx" else {"t.json": json.dumps(text).encode()})
    return "parse_map", map_file(fmt, tilesets=text if fmt == "tmx" else [text])


def ts_of(way, parsed):
    return parsed if way == "alone" else parsed.tilesets[1]


# -- the kinds: each takes (fmt, n, salt, way) and gives (function, files, observe, expected)
def k_objects(fmt, n, s, way):
    return "parse_map", map_file(fmt, join(fmt, [objects(fmt, (obj(fmt, i, s) for i in range(n)))])), \
        lambda m: [obj_seen(o) for o in m.layers[0].tiled_objects], [obj_due(i, s) for i in range(n)]


def k_points(fmt, n, s, way):
    kind = ["polygon", "polyline"][s % 2]
    pts = [(num(i, s), -i) for i in range(n)]
    if fmt == "tmx":
        o = tag("object", {"id": 1, "x": 0, "y": 0}, tag(kind, {"points": " ".join("%d,%d" % p for p in pts)}))
    else:
        o = dict(obj(fmt, 0, s), **{kind: [{"x": x, "y": y} for x, y in pts]})
        o.pop("ellipse", o.pop("point", None))
    return "parse_map", map_file(fmt, join(fmt, [objects(fmt, [o])])), lambda m: [tuple(p) for p in m.layers[0].tiled_objects[0].points], pts


def k_map_properties(fmt, n, s, way):
    p, due = props(fmt, n, s)
    return "parse_map", map_file(fmt, props=p), lambda m: list(m.properties.items()), list(due.items())


def k_layer_properties(fmt, n, s, way):
    p, due = props(fmt, n, s)
    l = layer(fmt, "objectgroup", body=p if fmt == "tmx" else {"properties": p, "objects": []})
    return "parse_map", map_file(fmt, join(fmt, [l])), lambda m: list(m.layers[0].properties.items()), list(due.items())


def k_object_properties(fmt, n, s, way):
    p, due = props(fmt, n, s)
    o = tag("object", {"id": 1, "x": 0, "y": 0}, p) if fmt == "tmx" else dict(obj(fmt, 0, s), properties=p)
    return "parse_map", map_file(fmt, join(fmt, [objects(fmt, [o])])), lambda m: list(m.layers[0].tiled_objects[0].properties.items()), list(due.items())


def k_layers(fmt, n, s, way):
    kinds = ["layer", "objectgroup", "imagelayer", "group"]
    out, due = [], []
    for i in range(n):
        k = kinds[num(i, s) % 4]
        name = "l%d" % num(i, s)
        if k == "layer":
            out.append(tile_layer(fmt, 2, 1, [i, i + 1], "csv", i=i, name=name))
            due.append(["TileLayer", i, name, [[i, i + 1]]])
        else:
            body = {"objectgroup": "", "imagelayer": '<image source="a.png"/>', "group": ""}[k] if fmt == "tmx" else \
                {"objectgroup": {"objects": []}, "imagelayer": {"image": "a.png"}, "group": {"layers": []}}[k]
            out.append(layer(fmt, k, i=i, name=name, body=body))
            due.append([{"objectgroup": "ObjectLayer", "imagelayer": "ImageLayer", "group": "LayerGroup"}[k], i, name, None])
    body = join(fmt, out)
    if way == "group":
        body = join(fmt, [layer(fmt, "group", body=body if fmt == "tmx" else {"layers": body})])
    return "parse_map", map_file(fmt, body), lambda m: [[type(l).__name__, l.id, l.name, getattr(l, "data", None)] for l in (m.layers[0].layers if way == "group" else m.layers)], due


def grid(fmt, w, h, s, enc):
    gids = [num(i, s) * 65537 % 2**32 for i in range(w * h)]
    return "parse_map", map_file(fmt, join(fmt, [tile_layer(fmt, w, h, gids, enc)])), lambda m: m.layers[0].data, [gids[r * w : r * w + w] for r in range(h)]


def k_rows(fmt, n, s, way):
    return grid(fmt, 3, n, s, way)


def k_columns(fmt, n, s, way):
    return grid(fmt, n, 3, s, way)


def k_chunks(fmt, n, s, way):
    out, due, attrs = [], [], {}
    for i in range(n):
        gids = [num(i + j, s) for j in range(4)]
        attrs, content = cells(fmt, gids, way)
        a = {"x": num(i, s) - 32768, "y": -i, "width": 2, "height": 2}
        out.append(tag("chunk", a, content) if fmt == "tmx" else dict(a, data=content))
        due.append([(a["x"], a["y"]), [gids[:2], gids[2:]]])
    body = tag("data", attrs, "".join(out)) if fmt == "tmx" else dict(attrs, chunks=out)
    l = layer(fmt, "layer", width=2, height=2, body=body)
    return "parse_map", map_file(fmt, join(fmt, [l]), infinite=True), lambda m: [[tuple(c.coordinates), c.data] for c in m.layers[0].chunks], due


def k_tilesets(fmt, n, s, way):
    files, items, due = {}, [], []
    for i in range(n):
        gid = 1 + i * 100
        if way == "embedded":
            items.append(tileset(fmt, firstgid=gid, name="t%d" % num(i, s), tilecount=100))
            due.append((gid, gid, "t%d" % num(i, s)))
        else:
            src = "t%d.%s" % (num(i, s) % 5, "tsx" if way == "tsx" else "json")
            items.append(tag("tileset", {"firstgid": gid, "source": src}) if fmt == "tmx" else {"firstgid": gid, "source": src})
            due.append((gid, gid, "f%d" % (num(i, s) % 5)))
    for k in range(5):
        if way == "tsx":
            files["t%d.tsx" % k] = tileset("tmx", name="f%d" % k, tilecount=100).encode()
        elif way == "json":
            files["t%d.json" % k] = json.dumps(tileset("json", name="f%d" % k, tilecount=100)).encode()
    files.update(map_file(fmt, tilesets=join(fmt, items)))
    return "parse_map", files, lambda m: [(g, t.firstgid, t.name) for g, t in m.tilesets.items()], due


def k_tiles(fmt, n, s, way):
    out, due = [], []
    for i in range(n):
        c, v = "c%d" % num(i, s), num(i, s)
        if fmt == "tmx":
            out.append(tag("tile", {"id": 2 * i, "class": c}, '<properties><property name="a" type="int" value="%d"/></properties>' % v))
        else:
            out.append({"id": 2 * i, "class": c, "properties": [{"name": "a", "type": "int", "value": v}]})
        due.append((2 * i, 2 * i, c, {"a": v}))
    fn, files = put_tileset(fmt, way, tileset(fmt, join(fmt, out) if fmt == "tmx" else {"tiles": out}, firstgid=None if way == "alone" else 1))
    return fn, files, lambda p: [(k, t.id, t.class_, t.properties) for k, t in ts_of(way, p).tiles.items()], due


def k_tile_images(fmt, n, s, way):
    out, due = [], []
    for i in range(n):
        name, w = "i%d.png" % num(i, s), 1 + num(i, s)
        if fmt == "tmx":
            out.append(tag("tile", {"id": i}, tag("image", {"source": name, "width": w, "height": 3})))
        else:
            out.append({"id": i, "image": name, "imagewidth": w, "imageheight": 3})
        due.append((i, name, w, 3))
    fn, files = put_tileset(fmt, way, tileset(fmt, join(fmt, out) if fmt == "tmx" else {"tiles": out}, firstgid=None if way == "alone" else 1))
    return fn, files, lambda p: [(k, t.image.name, t.image_width, t.image_height) for k, t in ts_of(way, p).tiles.items()], due


def k_frames(fmt, n, s, way):
    frames = [(num(i, s), 1 + i) for i in range(n)]
    if fmt == "tmx":
        body = tag("tile", {"id": 3}, tag("animation", {}, "".join(tag("frame", {"tileid": t, "duration": d}) for t, d in frames)))
    else:
        body = {"tiles": [{"id": 3, "animation": [{"tileid": t, "duration": d} for t, d in frames]}]}
    fn, files = put_tileset(fmt, way, tileset(fmt, body, firstgid=None if way == "alone" else 1))
    return fn, files, lambda p: [(f.tile_id, f.duration) for f in ts_of(way, p).tiles[3].animation], frames


def k_collision(fmt, n, s, way):
    group = objects(fmt, (obj(fmt, i, s) for i in range(n)))
    body = tag("tile", {"id": 3}, group) if fmt == "tmx" else {"tiles": [{"id": 3, "objectgroup": group}]}
    fn, files = put_tileset(fmt, way, tileset(fmt, body, firstgid=None if way == "alone" else 1))
    return fn, files, lambda p: [obj_seen(o) for o in ts_of(way, p).tiles[3].objects.tiled_objects], [obj_due(i, s) for i in range(n)]


def wang(fmt, way, sets):
    if fmt == "tmx":
        body = tag("wangsets", {}, "".join(tag("wangset", a, "".join(tag("wangcolor", c) for c in cs) + "".join(
            tag("wangtile", {"tileid": t, "wangid": ",".join(map(str, w))}) for t, w in ts)) for a, cs, ts in sets))
    else:
        body = {"wangsets": [dict(a, colors=cs, wangtiles=[{"tileid": t, "wangid": w} for t, w in ts]) for a, cs, ts in sets]}
    return put_tileset(fmt, way, tileset(fmt, body, firstgid=None if way == "alone" else 1))


def k_wang_sets(fmt, n, s, way):
    sets = [({"name": "w%d" % num(i, s), "type": "mixed", "tile": num(i, s)}, [], []) for i in range(n)]
    fn, files = wang(fmt, way, sets)
    return fn, files, lambda p: [(w.name, w.tile) for w in ts_of(way, p).wang_sets], [(a["name"], a["tile"]) for a, _, _ in sets]


def k_wang_colors(fmt, n, s, way):
    colors = [{"name": "c%d" % num(i, s), "color": "#%06x" % num(i, s), "tile": num(i, s), "probability": 1} for i in range(n)]
    fn, files = wang(fmt, way, [({"name": "w", "type": "mixed", "tile": 0}, colors, [])])
    return fn, files, lambda p: [(c.name, c.tile, tuple(c.color)) for c in ts_of(way, p).wang_sets[0].wang_colors], \
        [(c["name"], c["tile"], tuple(bytes.fromhex(c["color"][1:])) + (255,)) for c in colors]


def k_wang_tiles(fmt, n, s, way):
    tiles = [(2 * i, [num(i + j, s) % 200 for j in range(8)]) for i in range(n)]
    fn, files = wang(fmt, way, [({"name": "w", "type": "mixed", "tile": 0}, [], tiles)])
    return fn, files, lambda p: [(k, w.tile_id, list(w.wang_id)) for k, w in ts_of(way, p).wang_sets[0].wang_tiles.items()], [(t, t, w) for t, w in tiles]


def k_instances(fmt, n, s, way):
    tpl = {"tmx": b'<template><object name="tpl" width="5" height="6"><properties><property name="a" value="b"/></properties></object></template>',
           "json": json.dumps({"type": "template", "object": {"id": 0, "name": "tpl", "type": "", "width": 5, "height": 6, "rotation": 0, "visible": True,
                                                              "properties": [{"name": "a", "type": "string", "value": "b"}]}}).encode()}[fmt]
    items = []
    for i in range(n):
        a = {"id": i + 1, "x": num(i, s), "y": i, "template": "t.tx"}
        if num(i, s) % 2:
            a["name"] = "own%d" % i
        items.append(tag("object", a) if fmt == "tmx" else a)
    files = map_file(fmt, join(fmt, [objects(fmt, items)]))
    files["t.tx"] = tpl
    return "parse_map", files, lambda m: [(o.id, tuple(o.coordinates), o.name, tuple(o.size), o.properties) for o in m.layers[0].tiled_objects], \
        [(i + 1, (num(i, s), i), "own%d" % i if num(i, s) % 2 else "tpl", (5, 6), {"a": "b"}) for i in range(n)]


def k_tile_instances(fmt, n, s, way):
    inner = "tmx" if way == "tsx" else "json"
    files = {"t.ts": tileset(inner).encode() if inner == "tmx" else json.dumps(tileset(inner)).encode()}
    files["t.tx"] = {"tmx": b'<template><tileset firstgid="1" source="t.ts"/><object name="tpl" gid="7" width="5" height="6"/></template>',
                     "json": json.dumps({"type": "template", "tileset": {"firstgid": 1, "source": "t.ts"}, "object": {
                         "id": 0, "name": "tpl", "type": "", "gid": 7, "width": 5, "height": 6, "rotation": 0, "visible": True}}).encode()}[fmt]
    items = [{"id": i + 1, "x": num(i, s), "y": i, "template": "t.tx"} for i in range(n)]
    files.update(map_file(fmt, join(fmt, [objects(fmt, [tag("object", a) if fmt == "tmx" else a for a in items])]), join(fmt, [tileset(fmt, firstgid=1, tilecount=50)])))
    return "parse_map", files, lambda m: [(o.id, o.gid) for o in m.layers[0].tiled_objects] + [len(m.tilesets)], [(i + 1, 57) for i in range(n)] + [2]


def k_text(fmt, n, s, way):
    text = "".join("w%d <&\n" % num(i, s) for i in range(n))
    if fmt == "tmx":
        o = tag("object", {"id": 1, "x": 0, "y": 0, "width": 1, "height": 1}, "<text>%s</text>" % text.replace("&", "&amp;").replace("<", "&lt;"))
    else:
        o = {k: v for k, v in obj(fmt, 0, s).items() if k not in ("ellipse", "point")}
        o["text"] = {"text": text}
    return "parse_map", map_file(fmt, join(fmt, [objects(fmt, [o])])), lambda m: [m.layers[0].tiled_objects[0].text], [text]


def k_world_maps(fmt, n, s, way):
    maps = [{"fileName": "m%d.tmx" % num(i, s), "x": num(i, s), "y": -i, "width": 3, "height": 4} for i in range(n)]
    return "parse_world", {"x.world": json.dumps({"maps": maps}).encode()}, lambda w: [(m.map_file.name, tuple(m.coordinates)) for m in w.maps], \
        [(m["fileName"], (m["x"], m["y"])) for m in maps]


def k_world_files(fmt, n, s, way):
    files = {"m_%d_%d.tmx" % (i, num(i, s)): b"" for i in range(n)}
    files["x.world"] = json.dumps({"patterns": [{"regexp": r"m_(\d+)_(\d+)\.tmx", "multiplierX": 10, "multiplierY": 20, "offsetX": 1, "offsetY": 2}]}).encode()
    return "parse_world", files, lambda w: sorted((m.coordinates.x, m.map_file.name, m.coordinates.y) for m in w.maps), \
        [(i * 10 + 1, "m_%d_%d.tmx" % (i, num(i, s)), num(i, s) * 20 + 2) for i in range(n)]


ENCS = ["csv", "elements", "base64", "zlib", "gzip"]
# name: (builder, ways, number of elements that takes about half a second)
KINDS = {
    "objects": (k_objects, [""], 24000),
    "points": (k_points, [""], 150000),
    "map properties": (k_map_properties, [""], 100000),
    "layer properties": (k_layer_properties, [""], 100000),
    "object properties": (k_object_properties, [""], 100000),
    "layers": (k_layers, ["map", "group"], 24000),
    "rows": (k_rows, ENCS, 120000),
    "columns": (k_columns, ENCS, 120000),
    "chunks": (k_chunks, ENCS, 40000),
    "tilesets": (k_tilesets, ["embedded", "tsx", "json"], 6000),
    "tiles": (k_tiles, ["alone", "embedded"], 40000),
    "tile images": (k_tile_images, ["alone", "embedded"], 40000),
    "frames": (k_frames, ["alone", "embedded"], 200000),
    "collision objects": (k_collision, ["alone", "embedded"], 24000),
    "wang sets": (k_wang_sets, ["alone", "embedded"], 80000),
    "wang colors": (k_wang_colors, ["alone", "embedded"], 80000),
    "wang tiles": (k_wang_tiles, ["alone", "embedded"], 80000),
    "instances": (k_instances, [""], 4000),
    "tile instances": (k_tile_instances, ["tsx", "json"], 2500),
    "text": (k_text, [""], 100000),
    "world maps": (k_world_maps, [""], 60000),
    "world files": (k_world_files, [""], 6000),
}


def build(kind, fmt, n, salt, way):
    fn, files, see, due = KINDS[kind][0](fmt, n, salt, way)
    main = [p for p in files if p.startswith(("m.", "x.world"))] or [p for p in files if p.startswith("t.")]
    return fn, files, main[0], see, due


def all_kinds():
    """(kind, format, way) of every combination"""
    for kind, (_, ways, _) in KINDS.items():
        for way in ways:
            for fmt in ("json",) if kind.startswith("world") else ("tmx", "json"):
                if not (fmt == "json" and way == "elements"):
                    yield kind, fmt, way
