"""Structured generators: abstract project documents (plain JSON values) that stand for the
maps, tilesets, templates and worlds Tiled can save."""
import os
import posixpath

from hypothesis import strategies as st

from .twist import ALL, SMALL  # noqa: SMALL is for users of this module
from .twist import twist as _twist

FLAG_BITS = [0x80000000, 0x40000000, 0x20000000, 0x10000000]
U32 = 2**32 - 1

# Text every XML 1.0 document can carry
XML_CHARS = st.characters(
    codec="utf-8",
    exclude_categories=("Cs", "Cn"),
    exclude_characters="".join(map(chr, [*range(0, 9), 11, 12, *range(14, 32), 0x7F, *range(0x80, 0xA0), 0xFFFE, 0xFFFF])),
)
TRICKY = ["", "a", "b1", "Ground", "<&>\"'", "]]>", "a b", " lead", "trail ", "x\ny", "tab\there", "None", "false", "1e5", "0x10", "-0", "NaN", "\u00a0", "a\\nb", "%s", "{0}", "../x", "~", "x" * 300, "cr\rlf\r\n", "été",
          "日本語", "😀🎮", "null", "0", "true", "#ff0000", "a/b\\c", "{}", "&amp;", "\u2028", "ß\u0301", "1,2", "e\\u0041", "\n", " ", "\ufeffx"]
TEXT = st.one_of(st.sampled_from(TRICKY), st.text(XML_CHARS, max_size=8))
SINGLE = TEXT.map(lambda s: s)  # attribute text; the writers escape line breaks
WORD = st.one_of(st.sampled_from(["a", "b", "c", "wall", "Floor", "é", "日", "x y", "A-1", "0"]), st.text(XML_CHARS, min_size=1, max_size=6))
CLASS = WORD
COORD = st.one_of(
    st.integers(-100, 2000),
    st.integers(-8000, 8000).map(lambda n: n / 8),
    st.floats(-1e6, 1e6, allow_nan=False, allow_infinity=False),
    st.sampled_from([0, 1, -1, 0.5, 1e-7, 123456789.125, -0.1, 333.333]),
)
LENGTH = st.one_of(st.integers(0, 500), st.integers(1, 4000).map(lambda n: n / 8), st.sampled_from([0, 1, 16, 0.1]))
UNIT = st.one_of(st.sampled_from([0, 1, 0.5, 0.25]), st.integers(0, 100).map(lambda n: n / 100), st.floats(1e-5, 1), st.integers(0, 255).map(lambda n: n / 255))
BOOL = st.booleans()
HEX2 = st.one_of(st.integers(0, 255), st.sampled_from([0, 1, 15, 16, 127, 128, 254, 255]))


@st.composite
def colors(draw, hash_=None, alpha=None):
    a = draw(st.booleans()) if alpha is None else alpha
    ch = [draw(HEX2) for _ in range(4 if a else 3)]
    text = "".join("%02x" % c for c in ch)
    mode = draw(st.integers(0, 2))
    if mode == 1:
        text = text.upper()
    elif mode == 2:
        text = "".join(c.upper() if i % 2 else c for i, c in enumerate(text))
    h = draw(st.booleans()) if hash_ is None else hash_
    return ("#" if h else "") + text


COLOR = colors()

GID = st.one_of(
    st.just(0),
    st.integers(0, 60),
    st.builds(lambda g, f: g | f, st.integers(1, 60), st.sampled_from([b for b in FLAG_BITS] + [0xE0000000, 0xF0000000, 0xC0000000])),
    st.sampled_from([1, 255, 256, 65535, 65536, 0xFFFFFF, 0x1000000, 2**31 - 1, 2**31, U32, U32 - 1]),
    st.integers(0, U32),
)
FILE = st.sampled_from(["img/a.png", "../art/b.png", "c.png", "deep/er/d e.png", "é.png", "./e.png", "日/本.png", "UPPER.PNG", "x#1&2.png", "../../up.png", "noext",
                        "a\\b.png", "~/h.png", "$HOME/v.png", "100%25.png", ".hidden", "a.b.c.png", "dir.d/x", "sp ace/ x.png", "img/../y.png", "http://h/i.png",
                        "C:/w/i.png", "/abs/i.png", "name.png ", "a+b;c,d.png"])


def seq(draw, elem, lo, hi):
    return draw(st.lists(elem, min_size=lo, max_size=hi))


def pick_optional(draw, out, table, p_all=0.0):
    """Draws a subset of optional attributes: table is [(key, strategy)]."""
    mask = draw(st.integers(0, 2 ** len(table) - 1))
    for i, (key, strat) in enumerate(table):
        if mask >> i & 1:
            out[key] = draw(strat)
    return out


# ------------------------------------------------------------------------- properties

PROP_VALUES = {
    "string": TEXT,
    "int": st.one_of(st.integers(-10, 10), st.integers(-(2**31), 2**31 - 1)),
    "float": COORD,
    "bool": BOOL,
    "file": st.one_of(FILE, FILE, FILE, st.just("")),
    "color": COLOR,
    "object": st.integers(0, 2**31 - 1),
}


@st.composite
def properties(draw, lo=0, hi=4, kinds=None, classes=True, nested=True):
    kinds = kinds or list(PROP_VALUES)
    names = draw(st.lists(WORD.filter(lambda w: not w.startswith("cls!")), min_size=lo, max_size=hi, unique=True))
    out = []
    for name in names:
        kind = draw(st.sampled_from(kinds + (["class"] if classes else [])))
        opts = {}
        if kind == "class":
            name = "cls!" + name
            value = []
            for n in draw(st.lists(WORD, max_size=2, unique=True)):
                value.append(["nested " + n, "string", draw(TEXT)])
            if nested and draw(st.integers(0, 3)) == 0:
                value.append(["nested deep", "class", [["nested leaf", "int", 3]]])
            opts["ptype"] = "T"
        else:
            value = draw(PROP_VALUES[kind])
            if kind == "string":
                bits = draw(st.integers(0, 15))
                opts = {"omit": bits & 1 == 0, "text": bool(bits & 2), "attr": bits & 4 != 0}
                if bits == 15:
                    opts["ptype"] = "Enum"
        out.append([name, kind, value, opts] if opts else [name, kind, value])
    return out


PROPS = properties()


# ----------------------------------------------------------------------------- objects


@st.composite
def points(draw):
    n = draw(st.integers(1, 6))
    return [[draw(COORD), draw(COORD)] for _ in range(n)]


TEXT_OPTIONAL = [
    ("color", COLOR),
    ("fontfamily", st.sampled_from(["sans-serif", "Arial", "DejaVu Sans", "ＭＳ ゴシック", "a&b"])),
    ("pixelsize", st.one_of(st.integers(1, 99), st.sampled_from([16, 12.5]))),
    ("bold", BOOL),
    ("italic", BOOL),
    ("kerning", BOOL),
    ("strikeout", BOOL),
    ("underline", BOOL),
    ("halign", st.sampled_from(["left", "center", "right", "justify"])),
    ("valign", st.sampled_from(["top", "center", "bottom"])),
    ("wrap", BOOL),
]


@st.composite
def shapes(draw, kinds=("rect", "ellipse", "point", "polygon", "polyline", "text", "tile"), gid=None):
    kind = draw(st.sampled_from(list(kinds)))
    shape = {"k": kind}
    if kind in ("polygon", "polyline"):
        shape["points"] = draw(points())
    elif kind == "tile":
        shape["gid"] = draw(gid if gid is not None else GID.map(lambda g: g or 1))
    elif kind == "text":
        shape["text"] = draw(TEXT)
        pick_optional(draw, shape, TEXT_OPTIONAL)
    return shape


OBJ_OPTIONAL = [
    ("name", TEXT),
    ("class", CLASS),
    ("w", LENGTH),
    ("h", LENGTH),
    ("rotation", COORD),
    ("visible", BOOL),
]


@st.composite
def objects(draw, ids, kinds=("rect", "ellipse", "point", "polygon", "polyline", "text", "tile"), props=PROPS, gid=None):
    o = {"id": ids(draw), "x": draw(COORD), "y": draw(COORD)}
    mask = draw(st.integers(0, 127))
    for i, (key, strat) in enumerate(OBJ_OPTIONAL):
        if mask >> i & 1:
            o[key] = draw(strat)
    if mask >> 6 & 1:
        o["props"] = draw(props)
    o["shape"] = draw(shapes(kinds, gid))
    return o


class Ids:
    """unique ids with gaps; not always ascending"""

    def __init__(self):
        self.used = set()

    def __call__(self, draw):
        n = draw(st.one_of(st.integers(1, 40), st.sampled_from([255, 65536, 2**31 - 1])))
        while n in self.used:
            n += 1
        self.used.add(n)
        return n


# ------------------------------------------------------------------------------ layers

LAYER_OPTIONAL = [
    ("class", CLASS),
    ("opacity", UNIT),
    ("visible", BOOL),
    ("offsetx", COORD),
    ("offsety", COORD),
    ("parallaxx", COORD),
    ("parallaxy", COORD),
    ("tint", COLOR),
    ("repeatx", BOOL),
    ("repeaty", BOOL),
    ("locked", BOOL),
    ("props", PROPS),
]

ENCODINGS = ("csv", "elements", "base64", "zlib", "gzip")


@st.composite
def encodings(draw):
    e = draw(st.sampled_from(ENCODINGS + ("zstd",) if os.environ.get("VERIF_ZSTD") else ENCODINGS))
    enc = {"e": e if e in ("csv", "elements") else "base64"}
    bits = draw(st.integers(0, 19))
    enc["ws"] = bits % 5
    if e in ("zlib", "gzip", "zstd"):
        enc["c"] = e
        enc["lvl"] = draw(st.integers(0 if e != "zstd" else 1, 9))
    elif e == "base64":
        enc["c"] = ""
    if bits >= 10:
        enc["explicit"] = True
    elif e == "base64":
        enc["explicit"] = False
    if e == "elements" and bits % 2:
        enc["omit0"] = False
    return enc


@st.composite
def gid_block(draw, n, gid=GID):
    """n gids; large blocks are built from runs so that generation stays cheap."""
    if n <= 24:
        return draw(st.lists(gid, min_size=n, max_size=n))
    pool = draw(st.lists(gid, min_size=1, max_size=12))
    step = draw(st.integers(1, 7))
    return [pool[(i * step + i // len(pool)) % len(pool)] for i in range(n)]


@st.composite
def tile_layer(draw, base, infinite, gid=GID, maxdim=6, big=False):
    l = base
    hi = maxdim
    if big and draw(st.integers(0, 5)) == 0:
        hi = 40
    l["enc"] = draw(encodings())
    l["w"], l["h"] = draw(st.integers(1, hi)), draw(st.integers(1, hi))
    if not infinite:
        l["gids"] = draw(gid_block(l["w"] * l["h"], gid))
    else:
        chunks = []
        for _ in range(draw(st.integers(0, 4))):
            x, y = draw(st.integers(-64, 64)), draw(st.integers(-64, 64))
            w, h = draw(st.integers(1, hi)), draw(st.integers(1, hi))
            chunks.append({"x": x, "y": y, "w": w, "h": h, "gids": draw(gid_block(w * h, gid))})
        l["chunks"] = chunks
        if draw(st.booleans()):
            l["startx"], l["starty"] = draw(st.integers(-64, 64)), draw(st.integers(-64, 64))
    return l


@st.composite
def layer_base(draw, ids, optional=LAYER_OPTIONAL):
    l = {"name": draw(TEXT), "id": ids(draw)}
    pick_optional(draw, l, optional)
    return l


@st.composite
def layers(draw, ids, oids, infinite=False, depth=2, lo=0, hi=4, kinds=("tile", "object", "image", "group"),
           objs=None, gid=GID, optional=LAYER_OPTIONAL, maxobj=4, big=False, minobj=0):
    out = []
    n = draw(st.integers(lo, hi))
    for _ in range(n):
        usable = [k for k in kinds if k != "group" or depth > 0]
        kind = draw(st.sampled_from(usable))
        l = draw(layer_base(ids, optional))
        l["k"] = kind
        if kind == "tile":
            draw(tile_layer(l, infinite, gid, big=big))
        elif kind == "object":
            if draw(st.booleans()):
                l["draworder"] = draw(st.sampled_from(["topdown", "index"]))
            make = objs if objs is not None else objects(oids)
            l["objects"] = seq(draw, make, minobj, maxobj)
        elif kind == "image":
            l["image"] = draw(FILE)
            bits = draw(st.integers(0, 3))
            if bits & 1:
                l["trans"] = draw(COLOR)
            if bits & 2:
                l["iw"], l["ih"] = draw(st.integers(1, 900)), draw(st.integers(1, 900))
        else:
            l["layers"] = draw(layers(ids, oids, infinite, depth - 1, 0, hi, kinds, objs, gid, optional, maxobj, big, minobj))
        out.append(l)
    return out


# ---------------------------------------------------------------------------- tilesets


@st.composite
def image(draw, trans=True):
    im = {"src": draw(FILE)}
    bits = draw(st.integers(0, 15))
    if bits & 1 or bits & 8:
        im["w"] = draw(st.integers(1, 2048))
    if bits & 2 or bits & 8:
        im["h"] = draw(st.integers(1, 2048))
    if trans and bits & 4:
        im["trans"] = draw(COLOR)
    return im


TILESET_OPTIONAL = [
    ("spacing", st.integers(0, 9)),
    ("margin", st.integers(0, 9)),
    ("bg", COLOR),
    ("align", st.sampled_from(["topleft", "bottom", "center", "unspecified"])),
    ("rendersize", st.sampled_from(["tile", "grid"])),
    ("fillmode", st.sampled_from(["stretch", "preserve-aspect-fit"])),
    ("class", CLASS),
    ("version", st.sampled_from(["1.10", "1.9", "1.2", "2021"])),
    ("tiledversion", st.sampled_from(["1.10.2", "1.9.0", "2021-03-01"])),
    ("props", PROPS),
    ("offset", st.tuples(st.integers(-50, 50), st.integers(-50, 50)).map(list)),
    ("grid", st.builds(lambda o, w, h: {"o": o, "w": w, "h": h}, st.sampled_from(["orthogonal", "isometric"]), st.integers(1, 64), st.integers(1, 64))),
    ("transf", st.builds(lambda h, v, r, p: {"h": h, "v": v, "r": r, "p": p}, BOOL, BOOL, BOOL, BOOL)),
]


@st.composite
def tile_def(draw, id_, collection, count):
    t = {"id": id_}
    bits = draw(st.integers(0, 255))
    if bits & 1:
        t["class"] = draw(CLASS)
    if bits & 2:
        t["props"] = draw(PROPS)
    if bits & 4:
        t["anim"] = [[draw(st.integers(0, max(count, 1) - 1)), draw(st.integers(1, 2000))] for _ in range(draw(st.integers(1, 4)))]
    if bits & 8:
        oids = Ids()
        l = {"k": "object", "name": "", "objects": seq(draw, objects(oids, ("rect", "ellipse", "point", "polygon", "polyline")), 0, 3)}
        if bits & 16:
            l["draworder"] = "index"
        if bits & 32:
            l["id"] = draw(st.integers(1, 9))
        t["objects"] = l
    if collection:
        t["image"] = draw(image(trans=False))
        if bits & 64:
            pick_optional(draw, t, [("x", st.integers(0, 99)), ("y", st.integers(0, 99)), ("w", st.integers(1, 99)), ("h", st.integers(1, 99))])
    return t


@st.composite
def wangsets(draw, count):
    out = []
    for _ in range(draw(st.integers(1, 2))):
        ws = {"name": draw(TEXT), "type": draw(st.sampled_from(["corner", "edge", "mixed"])), "tile": draw(st.integers(-1, count))}
        pick_optional(draw, ws, [("class", CLASS), ("props", PROPS)])
        ws["colors"] = []
        for _ in range(draw(st.integers(0, 4))):
            c = {"name": draw(TEXT), "color": draw(COLOR), "tile": draw(st.integers(-1, count)), "prob": draw(UNIT)}
            pick_optional(draw, c, [("class", CLASS), ("props", PROPS)])
            ws["colors"].append(c)
        ids = draw(st.lists(st.integers(0, max(count, 1) + 2), max_size=5, unique=True))
        ws["tiles"] = [[i, draw(st.lists(st.integers(0, max(len(ws["colors"]), 1)), min_size=8, max_size=8))] for i in ids]
        out.append(ws)
    return out


@st.composite
def tileset_def(draw, mark=None, rich=True, wang=None, collection=None):
    """mark: makes the tileset recognisable (unique image and class)"""
    coll = draw(st.booleans()) if collection is None else collection
    t = {"name": draw(TEXT), "tw": draw(st.integers(1, 64)), "th": draw(st.integers(1, 64))}
    ids = draw(st.lists(st.integers(0, 30), min_size=1 if coll else 0, max_size=4 if rich else 3, unique=True))
    if coll:
        t["count"] = len(ids)
        t["cols"] = draw(st.integers(0, 5))
    else:
        t["cols"] = draw(st.integers(1, 6))
        t["count"] = max([t["cols"] * draw(st.integers(1, 5))] + [i + 1 for i in ids])
        t["image"] = draw(image())
    if rich:
        pick_optional(draw, t, TILESET_OPTIONAL)
    if ids:
        t["tiles"] = [draw(tile_def(i, coll, t["count"])) if rich else ({"id": i, "image": {"src": "t%d.png" % i}} if coll else {"id": i, "class": "t"}) for i in ids]
    if wang if wang is not None else (rich and draw(st.integers(0, 2)) == 0):
        t["wangsets"] = draw(wangsets(t["count"]))
    if mark is not None:
        t["props"] = [p for p in t.get("props", []) if p[0] != "mark"] + [["mark", "int", mark]]
    return t


def span(t):
    return max([t["count"]] + [tile["id"] + 1 for tile in t.get("tiles", [])] + [1])


DIRS = ["", "maps", "data/maps", "ts", "a/b", "obj"]


@st.composite
def tileset_refs(draw, lo=0, hi=3, refs=("embed", "ext"), fmts=("same", "tmx", "json"), rich=True):
    out = []
    gid = 1
    for i in range(draw(st.integers(lo, hi))):
        d = draw(tileset_def(mark=i, rich=rich))
        ref = draw(st.sampled_from(list(refs)))
        ts = {"ref": ref, "firstgid": gid, "def": d}
        if ref != "embed":
            ts["dir"] = draw(st.sampled_from(DIRS))
            ts["file"] = "ts%d" % i
            ts["fmt"] = draw(st.sampled_from(list(fmts)))
            ts["spell"] = draw(st.integers(0, 2))
        out.append(ts)
        if ref != "tpl":
            gid += span(d) + draw(st.sampled_from([0, 0, 0, 1, 5]))
    return out


# ----------------------------------------------------------------------------- the map

MAP_OPTIONAL = [
    ("class", CLASS),
    ("backgroundcolor", COLOR),
    ("hexsidelength", st.integers(0, 99)),
    ("staggeraxis", st.sampled_from(["x", "y"])),
    ("staggerindex", st.sampled_from(["odd", "even"])),
    ("parallaxoriginx", COORD),
    ("parallaxoriginy", COORD),
    ("props", PROPS),
]


@st.composite
def map_header(draw, infinite=None, optional=True):
    m = {
        "version": draw(st.sampled_from(["1.10", "1.9", "1.5", "1.2"])),
        "tiledversion": draw(st.sampled_from(["1.10.2", "1.9.0", "1.3.1"])),
        "orientation": draw(st.sampled_from(["orthogonal", "isometric", "staggered", "hexagonal"])),
        "renderorder": draw(st.sampled_from(["right-down", "right-up", "left-down", "left-up"])),
        "infinite": draw(st.booleans()) if infinite is None else infinite,
        "width": draw(st.integers(1, 300)),
        "height": draw(st.integers(1, 300)),
        "tilewidth": draw(st.integers(1, 128)),
        "tileheight": draw(st.integers(1, 128)),
        "nextlayerid": draw(st.integers(1, 999)),
        "nextobjectid": draw(st.integers(1, 999)),
    }
    if optional:
        pick_optional(draw, m, MAP_OPTIONAL)
    return m


def simple_header(**kw):
    m = {"version": "1.10", "tiledversion": "1.10.2", "orientation": "orthogonal", "renderorder": "right-down",
         "infinite": False, "width": 4, "height": 3, "tilewidth": 16, "tileheight": 24, "nextlayerid": 9, "nextobjectid": 99}
    m.update(kw)
    return m


# --------------------------------------------------------------------------- templates

TPL_OPTIONAL = OBJ_OPTIONAL + [("props", PROPS)]


@st.composite
def template(draw, i, n_ts, tilesets, tile=None, plain=False):
    """An object template; tile templates point at tilesets[ts] by local id."""
    kinds = ["rect", "ellipse", "point", "polygon", "polyline", "text"]
    ext = [j for j, t in enumerate(tilesets) if t["ref"] != "embed"]
    obj = {"id": draw(st.integers(1, 9))}
    if not plain:
        pick_optional(draw, obj, TPL_OPTIONAL)
    tpl = {"dir": draw(st.sampled_from(DIRS)), "file": "tpl%d" % i, "obj": obj}
    if draw(st.booleans()):
        tpl["knobs"] = {"classkey": draw(st.sampled_from(["class", "type"]))}
    if ext and (tile if tile is not None else draw(st.integers(0, 2)) > 0):
        j = draw(st.sampled_from(ext))
        d = tilesets[j]["def"]
        local = draw(st.one_of(st.integers(0, span(d) - 1), st.sampled_from([t["id"] for t in d.get("tiles", [])] or [0])))
        flips = draw(st.sampled_from([0, 0, 0x80000000, 0x40000000, 0xE0000000, 0x20000000]))
        obj["shape"] = {"k": "tile", "gid": (local + 1) | flips}
        tpl["ts"] = j
        tpl["spell"] = draw(st.integers(0, 2))
    else:
        obj["shape"] = draw(shapes(kinds))
    return tpl


@st.composite
def instance(draw, oids, templates, own_gid=GID.map(lambda g: g or 1), plain=False):
    i = draw(st.integers(0, len(templates) - 1))
    tpl = templates[i]
    o = {"id": oids(draw), "x": draw(COORD), "y": draw(COORD), "template": i, "spell": draw(st.integers(0, 2))}
    if not plain:
        pick_optional(draw, o, TPL_OPTIONAL)
    if o.get("props") and tpl["obj"].get("props") and draw(st.booleans()):
        # override some of the template's properties by name
        src = draw(st.sampled_from(tpl["obj"]["props"]))
        if src[1] != "class" and all(p[0] != src[0] for p in o["props"]):
            new = draw(properties(1, 1, classes=False))[0]
            new[0] = src[0]
            o["props"].append(new)
    kind = tpl["obj"]["shape"]["k"]
    if kind != "rect" and draw(st.integers(0, 3)) == 0:
        if kind == "tile":
            o["shape"] = {"k": "tile", "gid": draw(own_gid)}
        elif kind == "text":
            o["shape"] = draw(shapes(("text",)))
        elif kind in ("polygon", "polyline"):
            o["shape"] = {"k": kind, "points": draw(points())}
    return o


def same_file_names(items, name="same"):
    """one file name, different directories (and the same directory for what is one file)"""
    seen = {}
    for ts in items:
        key = (ts["dir"], ts["file"])
        if key not in seen:
            folder = ts["dir"]
            while folder in seen.values():
                folder = folder + "/s" if folder else "s"
            seen[key] = folder
        ts["dir"], ts["file"] = seen[key], name


# ----------------------------------------------------------------------- whole projects


@st.composite
def project(draw, depth=2, hi=4, templates=True, infinite=None, ts_hi=3, fmts=("same", "tmx", "json"), big=False, rich=True,
            maxobj=4, twists=ALL):
    inf = draw(st.booleans()) if infinite is None else infinite
    tilesets = draw(tileset_refs(0, ts_hi, ("embed", "ext", "ext", "tpl") if templates else ("embed", "ext"), fmts, rich))
    tpls = []
    if templates:
        for i in range(draw(st.integers(0, 2))):
            tpls.append(draw(template(i, len(tilesets), tilesets)))
    if draw(st.integers(0, 5)) == 0:
        same_file_names([t for t in tilesets if t["ref"] != "embed"])
        same_file_names(tpls, "tpl")
    ids, oids = Ids(), Ids()
    objs = objects(oids)
    if tpls:
        objs = st.one_of(objs, instance(oids, tpls))
    m = draw(map_header(infinite=inf))
    m["layers"] = draw(layers(ids, oids, inf, depth, 0, hi, objs=objs, big=big, maxobj=maxobj))
    doc = {"dir": draw(st.sampled_from(DIRS)), "name": "map", "map": m, "tilesets": tilesets, "templates": tpls}
    return twist(draw, doc, twists) if twists else doc


# -------------------------------------------------------------------------- file layout


def bits(draw, n):
    """n bits, none of them rarer than the others"""
    return sum(bit << i for i, bit in enumerate(draw(st.lists(st.booleans(), min_size=n, max_size=n))))


@st.composite
def xml_style(draw):
    b = bits(draw, 13)
    return {
        "seed": draw(st.integers(0, 2**16)),
        "decl": bool(b & 1),
        "indent": [None, "", " ", "\t"][b >> 1 & 3],
        "eol": "\r\n" if b & 8 else "\n",
        "shuffle": bool(b & 16),
        "comments": bool(b & 32),
        "pair": bool(b & 64),
        "single": bool(b & 128),
        "escape": ["", "ascii", "entities", ""][b >> 8 & 3],
        "blank": not (b & 1) and bool(b & 1024),
        "cdata": bool(b & 2048),
        "final_eol": bool(b & 512),
        "attr_ws": bool(b & 64),
        "blank_lines": bool(b & 32),
        "trail": bool(b & 2048),
        "doctype": b >> 5 & 3 == 3,
        "regroup": bool(b & 4096),
    }


@st.composite
def json_style(draw):
    b = bits(draw, 9)
    return {
        "seed": draw(st.integers(0, 2**16)),
        "indent": [None, "", " ", "\t"][b & 3],
        "eol": "\r\n" if b & 4 else "\n",
        "shuffle": bool(b & 8),
        "escape": ["", "ascii", "entities", "ascii"][b >> 4 & 3],
        "ws": bool(b & 64),
        "blank": bool(b & 128),
        "final_eol": bool(b & 256),
    }


def twist(draw, doc, ops=ALL):
    """Twists some documents, and lays out one in seven in another way than Tiled does (used
    by Writer.contents), and spells one in nine as its older versions did; doc["layout"] and
    doc["knobs"] say how."""
    doc = _twist(draw, doc, ops)
    if draw(st.integers(0, 6)) == 6:
        doc["layout"] = {"xml": draw(xml_style()), "json": draw(json_style())}
    if draw(st.integers(0, 8)) == 8:
        doc["knobs"] = old_spelling(draw, doc)
    if draw(st.integers(0, 6)) == 6:
        odd_names(draw, doc)
    return doc


ODD = ["{} x", "{}%20x", "$HOME{}", "${{HOME}}{}", "~{}", "{}#1", "{}?x=1", "{}+y", "a&{}", "'{}'", "\"{}\"", "{}é日", "[{}]", "{}*", "{{{}}}", "{}.b.c", ".{}", "-{}", "{};x", "@{}", "{},x", "%s{}",
       "{}:1", "..{}", "{}..", "<{}>", " {} ", "{}e\u0301", "\\{}", "{}\\n", "file:{}", "{}.tmx", "{}.json", "null{}", "😀{}"]


def odd_names(draw, doc):
    """Other names of files and directories; what was one file stays one"""
    files, folders = draw(st.sampled_from(ODD)), draw(st.one_of(st.sampled_from(["{}", "~/{}"]), st.sampled_from(ODD)))

    def folder(name):
        if folders == "~/{}":
            return posixpath.join("~", name)
        if not name:
            return name
        return "/".join(folders.format(part) for part in name.split("/"))

    for thing in [doc] + [t for t in doc["tilesets"] if t["ref"] != "embed"] + doc["templates"]:
        if "dir" in thing and not (thing is doc and folders == "~/{}"):
            thing["dir"] = folder(thing["dir"])
        for key in ("file", "name"):
            if key in thing and (thing is doc) == (key == "name"):
                thing[key] = files.format(thing[key])


def old_spelling(draw, doc):
    """Spellings of older versions of Tiled that lose nothing (see C24)"""
    legacy = draw(st.lists(st.sampled_from(["num_version", "no_infinite", "notype", "dict_tiles"]), unique=True))
    if doc["map"]["infinite"]:
        legacy = [k for k in legacy if k != "no_infinite"]
    if "num_version" in legacy:
        # versions whose text is that of the number
        for thing in [doc["map"]] + [t["def"] for t in doc["tilesets"]]:
            if "version" in thing:
                thing["version"] = draw(st.sampled_from(["1", "1.1", "1.2", "1.4", "1.5", "1.9", "2021", "2"]))
    return {"legacy": legacy, "classkey": draw(st.sampled_from(["class", "type", "type"]))}
