"""Twists: changes of an abstract document that random drawing almost never produces on its own,
such as many equal siblings, deep nesting, repeated elements, explicit zeros, values that coincide,
missing ids and large data.  Every choice is drawn, so cases shrink and replay like any other."""
import copy
import random

from hypothesis import strategies as st

MANY = st.sampled_from([1, 1, 2, 3, 11, 33, 70])
SOME = st.sampled_from([1, 1, 2, 5, 12, 33])
NAMES = ["name", "id", "x", "y", "width", "type", "class", "visible", "gid", "value", "properties", "property", "template", "text", "points", "firstgid",
         "source", "image", "data", "layers", "objects", "tiles", "__class__", "__dict__", "properties/name", "a.b", "A", "ä", " ", "0", "-1", "None"]
LONG = ["x" * 5000, "word " * 900, "line\n" * 600, "é日😀" * 700, "<&>" * 1500, " " * 1030 + "end"]


def walk_layers(layers):
    for l in layers:
        yield l
        if l["k"] == "group":
            yield from walk_layers(l["layers"])


def layer_lists(layers):
    yield layers
    for l in layers:
        if l["k"] == "group":
            yield from layer_lists(l["layers"])


class Doc:
    def __init__(self, doc):
        self.doc = doc
        self.map = doc["map"]
        self.defs = [ts["def"] for ts in doc["tilesets"]]

    def layers(self):
        return list(walk_layers(self.map["layers"]))

    def tiles(self):
        return [t for d in self.defs for t in d.get("tiles", [])]

    def object_lists(self, collisions=True):
        out = [l["objects"] for l in self.layers() if l["k"] == "object"]
        if collisions:
            out += [t["objects"]["objects"] for t in self.tiles() if "objects" in t]
        return out

    def objects(self):
        return [o for objs in self.object_lists() for o in objs]

    def shapes(self, *kinds):
        things = self.objects() + [t["obj"] for t in self.doc["templates"]]
        return [o["shape"] for o in things if o.get("shape", {}).get("k") in kinds]

    def wangsets(self):
        return [w for d in self.defs for w in d.get("wangsets", [])]

    def owners(self):
        return [self.map, *self.layers(), *self.objects(), *self.defs, *self.tiles(), *self.wangsets(),
                *[c for w in self.wangsets() for c in w["colors"]], *[t["obj"] for t in self.doc["templates"]]]

    def top_id(self):
        ids = [l.get("id", 0) for l in self.layers()]
        return max(ids or [0]) + 1

    def top_oid(self):
        return max([o.get("id", 0) for o in self.objects()] or [0]) + 1


def renumber(d, layer, lid, oid):
    if "id" in layer:
        layer["id"], lid = lid, lid + 1
    for o in layer.get("objects", []):
        if "id" in o:
            o["id"], oid = oid, oid + 1
    for sub in layer.get("layers", []):
        lid, oid = renumber(d, sub, lid, oid)
    return lid, oid


def pick(draw, items):
    return items[draw(st.integers(0, len(items) - 1))]


def repeat_in(draw, items, count, make=copy.deepcopy):
    """puts copies of an element next to it, or at the end"""
    at = draw(st.integers(0, len(items) - 1))
    new = [make(items[at]) for _ in range(count)]
    if draw(st.booleans()):
        items[at + 1:at + 1] = new
    else:
        items.extend(new)


# -- the twists; each returns False when it does not apply


def same_objects(draw, d):
    lists = [objs for objs in d.object_lists() if objs]
    if not lists:
        return False
    oid = d.top_oid()

    def make(o):
        nonlocal oid
        o = copy.deepcopy(o)
        o["id"], oid = oid, oid + 1
        return o

    repeat_in(draw, pick(draw, lists), draw(MANY), make)


def same_layers(draw, d):
    lists = [ls for ls in layer_lists(d.map["layers"]) if ls]
    if not lists:
        return False
    state = [d.top_id(), d.top_oid()]

    def make(l):
        l = copy.deepcopy(l)
        state[:] = renumber(d, l, *state)
        return l

    repeat_in(draw, pick(draw, lists), draw(SOME), make)


def deeper(draw, d):
    lists = list(layer_lists(d.map["layers"]))
    ls = pick(draw, lists)
    lid = d.top_id()
    inner = ls[:]
    for _ in range(draw(st.sampled_from([1, 2, 3, 6, 14]))):
        inner = [{"k": "group", "name": "g", "id": lid, "layers": inner}]
        lid += 1
    ls[:] = inner


def points(draw, d):
    shapes = d.shapes("polygon", "polyline")
    if not shapes:
        return False
    p = pick(draw, shapes)["points"]
    how = draw(st.integers(0, 5))
    if how == 0:
        while len(p) < 3:
            p.append([p[-1][0] + 3, p[-1][1] - 1])
        p.append(list(p[0]))
    elif how == 1:
        repeat_in(draw, p, draw(SOME))
    elif how == 2:
        p.extend([[i, -i / 4] for i in range(draw(MANY))])
    elif how == 3:
        p[:] = [[0, 0]] * len(p)
    elif how == 4:
        p[:] = p[:1]
    else:
        p.extend([list(q) for q in reversed(p)])


def frames(draw, d):
    tiles = [t for t in d.tiles() if t.get("anim")]
    if not tiles:
        return False
    t = pick(draw, tiles)
    how = draw(st.integers(0, 2))
    if how == 0:
        repeat_in(draw, t["anim"], draw(SOME), list)
    elif how == 1:
        t["anim"].extend([list(f) for f in reversed(t["anim"])])
    else:
        t["anim"] = [[t["id"], 0 if draw(st.booleans()) else 100000]] + t["anim"]


def wang(draw, d):
    sets = d.wangsets()
    if not sets:
        return False
    w = pick(draw, sets)
    how = draw(st.integers(0, 4))
    if how == 0 and w["colors"]:
        repeat_in(draw, w["colors"], draw(MANY))
    elif how == 1:
        top = max([t[0] for t in w["tiles"]] + [-1]) + 1
        w["tiles"].extend([top + i, [(i >> b) % (len(w["colors"]) + 1) for b in range(8)]] for i in range(draw(MANY)))
    elif how == 2:
        for t in w["tiles"]:
            t[1] = [0] * 8
    elif how == 3:
        for t in w["tiles"]:
            t[1] = [max(len(w["colors"]), 1)] * 8
    else:
        holder = pick(draw, [x for x in d.defs if x.get("wangsets")])
        repeat_in(draw, holder["wangsets"], draw(st.integers(1, 3)))


def many_props(draw, d):
    owner = pick(draw, d.owners())
    have = {p[0] for p in owner.get("props", [])}
    kinds = [["string", "v"], ["int", 3], ["bool", False], ["float", 0.5], ["color", "#80102030"], ["file", "a/b.png"], ["object", 4], ["string", ""], ["int", 0],
             ["float", -0.125], ["bool", True]]
    start, n = draw(st.integers(0, 10)), draw(MANY)
    names = NAMES if draw(st.booleans()) else []
    new = []
    for i in range(n):
        name = names[(start + i) % len(names)] if i < len(names) else "p%d" % i
        if name not in have:
            have.add(name)
            new.append([name, *kinds[(start + i) % len(kinds)]])
    props = owner.setdefault("props", [])
    if draw(st.booleans()):
        props[:0] = new
    else:
        props.extend(new)


def same_props(draw, d):
    """several owners with the same properties"""
    owners = d.owners()
    src = pick(draw, owners)
    if not src.get("props"):
        return False
    for _ in range(draw(st.integers(1, 3))):
        dst = pick(draw, owners)
        if dst is not src and not any(p[0] == "mark" for p in src["props"] + dst.get("props", [])):
            dst["props"] = copy.deepcopy(src["props"])


def same_names(draw, d):
    things = pick(draw, [d.layers(), d.objects(), d.defs, [c for w in d.wangsets() for c in w["colors"]]])
    if len(things) < 2:
        return False
    name = draw(st.sampled_from(["", "same", "é"]))
    for t in things:
        t["name"] = name


def no_ids(draw, d):
    layers = d.layers()
    if not layers:
        return False
    every = draw(st.booleans())
    for l in layers:
        if every or draw(st.booleans()):
            l.pop("id", None)


def long_text(draw, d):
    text = draw(st.sampled_from(LONG))
    shapes = d.shapes("text")
    owners = [o for o in d.owners() if "name" in o]
    how = draw(st.integers(0, 2))
    if how == 0 and shapes:
        pick(draw, shapes)["text"] = text
    elif how == 1 and owners:
        pick(draw, owners)["name"] = text
    else:
        owner = pick(draw, d.owners())
        owner["props"] = [p for p in owner.get("props", []) if p[0] != "long"] + [["long", "string", text]]


def fill(how, n, w, seed):
    if how == 0:
        return [0] * n
    if how == 1:
        return [1 + seed % 60] * n
    if how == 2:  # only the first cells
        return [1 + (i + seed) % 60 if i < 2 * w else 0 for i in range(n)]
    if how == 3:  # only the last cell
        return [0] * (n - 1) + [7 | 0x20000000]
    if how == 4:
        return [1 + i % w for i in range(n)]
    if how == 5:  # all bytes occur
        return [(i * 2654435761 + seed) % 2**32 for i in range(n)]
    return [(i // w) % 3 for i in range(n)]


SIZES = [(1, 130), (130, 1), (300, 2), (2, 300), (33, 31), (64, 64), (100, 40), (17, 150), (257, 3), (16, 16), (200, 100), (131, 128), (256, 65), (90, 200)]


def big_data(draw, d):
    layers = [l for l in d.layers() if l["k"] == "tile"]
    if not layers:
        return False
    l = pick(draw, layers)
    w, h = draw(st.sampled_from(SIZES))
    how, seed = draw(st.integers(0, 6)), draw(st.integers(0, 99))
    if "gids" in l:
        l["w"], l["h"], l["gids"] = w, h, fill(how, w * h, w, seed)
    else:
        l["chunks"].insert(draw(st.integers(0, len(l["chunks"]))), {"x": -w, "y": 16, "w": w, "h": h, "gids": fill(how, w * h, w, seed)})


def flat_data(draw, d):
    """small layers with rows that are empty or equal"""
    layers = [l for l in d.layers() if l["k"] == "tile"]
    if not layers:
        return False
    l = pick(draw, layers)
    for block in [l] if "gids" in l else l["chunks"]:
        w = block["w"]
        n = len(block["gids"])
        how = draw(st.integers(0, 6))
        if how < 2:
            block["gids"] = [0] * n if how else block["gids"][:w] + [0] * (n - w)
        elif how == 2:
            block["gids"] = [0] * (n - w) + block["gids"][n - w:]
        elif how == 3:
            block["gids"] = (block["gids"][:w] * n)[:n]
        else:
            block["gids"] = fill(how, n, w, 3)


def reshaped(draw, d):
    """the same numbers in another shape"""
    lists = [(ls, i) for ls in layer_lists(d.map["layers"]) for i, l in enumerate(ls) if l["k"] == "tile"]
    if not lists:
        return False
    ls, i = pick(draw, lists)
    lid = d.top_id()
    if "gids" in ls[i]:
        blocks, here = ls, ls[i]
    else:
        if not ls[i]["chunks"]:
            return False
        blocks = ls[i]["chunks"]
        i = draw(st.integers(0, len(blocks) - 1))
        here = blocks[i]
    n = here["w"] * here["h"]
    divisors = [k for k in range(1, n + 1) if n % k == 0]
    for j in range(draw(st.integers(1, 3))):
        new = copy.deepcopy(here)
        new["w"] = pick(draw, divisors)
        new["h"] = n // new["w"]
        if "id" in new:
            new["id"] = lid + j
        blocks.insert(draw(st.integers(0, len(blocks))), new)


def same_chunks(draw, d):
    """equal chunks at other places, or other data at places that have been seen"""
    layers = [l for l in d.layers() if l["k"] == "tile" and l.get("chunks")]
    if not layers:
        return False
    src = pick(draw, layers)
    dst = pick(draw, layers)
    for _ in range(draw(st.integers(1, 4))):
        c = copy.deepcopy(pick(draw, src["chunks"]))
        how = draw(st.integers(0, 3))
        if how == 0:
            c["x"] += draw(st.sampled_from([16, -16, 1]))
        elif how == 1:
            c["x"], c["y"] = c["y"], c["x"]
        elif how == 2:
            c["gids"] = [(g + 1) % 2**32 for g in c["gids"]]
        else:
            c["y"] = -c["y"]
        dst["chunks"].insert(draw(st.integers(0, len(dst["chunks"]))), c)


def many_chunks(draw, d):
    layers = [l for l in d.layers() if l["k"] == "tile" and "chunks" in l]
    if not layers:
        return False
    l = pick(draw, layers)
    n, seed = draw(MANY), draw(st.integers(0, 6))
    size = 16 if n < 20 else 2
    for i in range(n):
        w, h = (size, size) if seed % 2 else (size, size + 1)
        l["chunks"].append({"x": (i % 5 - 2) * 16, "y": (i // 5 - 3) * 16, "w": w, "h": h, "gids": fill(seed, w * h, w, i)})


def many_tiles(draw, d):
    defs = [x for i, x in enumerate(d.defs) if not any(t.get("ts") == i for t in d.doc["templates"])]
    defs = [x for x in defs if x is d.defs[-1]]  # the last one, so that no other's gids move
    if not defs or d.doc["tilesets"][-1]["ref"] == "tpl":
        return False
    x = defs[0]
    n = draw(MANY)
    have = {t["id"] for t in x.get("tiles", [])}
    top = max(have or {-1}) + draw(st.sampled_from([1, 1, 100, 5000]))
    coll = "image" not in x
    new = []
    for i in range(n):
        t = {"id": top + i, "class": "c%d" % (i % 3)}
        if i % 4 == 1:
            t["props"] = [["n", "int", i]]
        if i % 4 == 2:
            t["anim"] = [[0, 100], [0, 100]]
        if coll:
            t["image"] = {"src": "t.png", "w": 8, "h": 4 + i % 3}
        new.append(t)
    x["tiles"] = new + x["tiles"] if draw(st.booleans()) and x.get("tiles") else x.get("tiles", []) + new
    x["count"] = len(x["tiles"]) if coll else max(x["count"], top + n)


ZERO = {"opacity": 0, "visible": False, "offsetx": 0, "offsety": 0, "parallaxx": 0, "parallaxy": 0, "repeatx": False, "repeaty": False, "class": "", "name": "",
        "w": 0, "h": 0, "rotation": 0, "spacing": 0, "margin": 0, "hexsidelength": 0, "parallaxoriginx": 0, "parallaxoriginy": 0, "prob": 0, "x": 0, "y": 0,
        "tint": "#00000000", "bg": "#00000000", "backgroundcolor": "00000000", "offset": [0, 0], "bold": False, "kerning": False, "wrap": False,
        "trans": "#000000", "color": "#00000000", "tile": 0}


def zeros(draw, d):
    """explicit zeros, off flags and empty strings for whatever the thing states"""
    things = d.owners() + d.shapes("text")
    for _ in range(draw(st.integers(1, 3))):
        thing = pick(draw, things)
        keys = [k for k in thing if k in ZERO and not (k in ("w", "h") and ("gids" in thing or "chunks" in thing))]
        mask = draw(st.integers(0, 2 ** len(keys) - 1)) or 2 ** len(keys) - 1
        for i, k in enumerate(keys):
            if mask >> i & 1:
                thing[k] = copy.deepcopy(ZERO[k])


def equal_pairs(draw, d):
    """both axes the same"""
    pairs = [("w", "h"), ("x", "y"), ("offsetx", "offsety"), ("parallaxx", "parallaxy"), ("parallaxoriginx", "parallaxoriginy"), ("spacing", "margin"),
             ("bg", "tint"), ("tw", "th"), ("name", "class"), ("class", "name")]
    for thing in [pick(draw, d.owners()) for _ in range(draw(st.integers(1, 4)))]:
        if "gids" in thing or "chunks" in thing:
            continue
        for a, b in pairs:
            if a in thing and b in thing:
                thing[b] = thing[a]


def extremes(draw, d):
    things = d.owners()
    for _ in range(draw(st.integers(1, 3))):
        thing = pick(draw, things)
        for k in list(thing):
            if k in ("x", "y", "offsetx", "offsety", "rotation", "parallaxx", "parallaxy", "parallaxoriginx", "parallaxoriginy") and "k" not in (k,):
                if "image" in thing and "shape" not in thing:
                    continue  # sub-rectangles are integers
                thing[k] = draw(st.sampled_from([1e9, -1e9, 1e-9, 2**31, -(2**31), 360, -360, 720.5, 1e16, 0.1 + 0.2, 99999.99999]))


def listed_backwards(draw, d):
    """order of siblings other than ascending"""
    lists = [ls for ls in [*layer_lists(d.map["layers"]), *d.object_lists(), *[x["tiles"] for x in d.defs if x.get("tiles")],
                           *[w["tiles"] for w in d.wangsets()]] if len(ls) > 1]
    if not lists:
        return False
    ls = pick(draw, lists)
    how = draw(st.integers(0, 2))
    if how == 0:
        ls.reverse()
    else:
        ls.sort(key=lambda t: t[0] if isinstance(t, list) else t.get("id", 0), reverse=how == 1)


# -- many varied siblings, from a seeded recipe

RICH = st.sampled_from([1, 2, 4, 9, 12, 17, 35, 70, 130])
RTEXT = ["", "a", "Tür", "日本", "x y", "<b>&", "l1\nl2", "0", "false", "None", " pad ", "p1", "q"]
RCOLOR = ["#ff0000", "#80ff0000", "00ff00", "#0A0B0C", "#00000000", "ffffffff", "#FFfeFD"]
RFILE = ["a.png", "img/b.png", "../c.png", "d/e/f.png"]
RCLASS = ["wall", "Floor", "日", "x y", "0"]


class Recipe:
    def __init__(self, seed):
        self.r = random.Random(seed)

    def one(self, items):
        return self.r.choice(items)

    def num(self):
        return self.r.choice([0, 1, -1, self.r.randint(-500, 2000), self.r.randint(-8000, 8000) / 8, self.r.uniform(-1e4, 1e4)])

    def props(self):
        out = []
        for i in range(self.r.choice([0, 1, 1, 2, 3, 6])):
            kind = self.one(["string", "int", "float", "bool", "color", "file", "object"])
            value = {"string": lambda: self.one(RTEXT), "int": lambda: self.r.randint(-9, 999), "float": self.num, "bool": lambda: self.r.random() < 0.5,
                     "color": lambda: self.one(RCOLOR), "file": lambda: self.one(RFILE), "object": lambda: self.r.randint(0, 99)}[kind]()
            out.append(["%s%d" % (self.one(["k", "name", "ä "]), i), kind, value])
        return out

    def some(self, out, **table):
        share = self.one([0.0, 0.3, 0.6, 1.0])
        for k, make in table.items():
            if self.r.random() < share:
                out[k] = make()
        return out

    def bit(self):
        return self.r.random() < 0.5

    def object(self, id_, kinds):
        k = self.one(kinds)
        o = self.some({"id": id_, "x": self.num(), "y": self.num()}, **{
            "name": lambda: self.one(RTEXT), "class": lambda: self.one(RCLASS), "w": lambda: abs(self.num()), "h": lambda: abs(self.num()),
            "rotation": self.num, "visible": self.bit, "props": self.props})
        o["shape"] = {"k": k}
        if k in ("polygon", "polyline"):
            o["shape"]["points"] = [[self.num(), self.num()] for _ in range(self.r.randint(1, 7))]
        elif k == "tile":
            o["shape"]["gid"] = self.r.randint(1, 30) | self.one([0, 0x80000000, 0x60000000])
        elif k == "text":
            o["shape"]["text"] = self.one(RTEXT)
            self.some(o["shape"], color=lambda: self.one(RCOLOR), fontfamily=lambda: self.one(["sans-serif", "Arial", "f3", "f4"]),
                      pixelsize=lambda: self.r.randint(1, 60), bold=self.bit, italic=self.bit, kerning=self.bit, strikeout=self.bit, underline=self.bit,
                      halign=lambda: self.one(["left", "center", "right", "justify"]), valign=lambda: self.one(["top", "center", "bottom"]), wrap=self.bit)
        return o

    def layer(self, d, lid, oid, kind, infinite):
        l = self.some({"k": kind, "name": self.one(RTEXT), "id": lid}, **{
            "class": lambda: self.one(RCLASS), "opacity": lambda: self.r.randint(0, 8) / 8, "visible": self.bit, "offsetx": self.num, "offsety": self.num,
            "parallaxx": lambda: self.r.randint(-8, 16) / 8, "parallaxy": lambda: self.r.randint(-8, 16) / 8, "tint": lambda: self.one(RCOLOR),
            "repeatx": self.bit, "repeaty": self.bit, "props": self.props})
        if kind == "tile":
            l["enc"] = {"e": self.one(["csv", "elements", "base64", "base64"]), "ws": self.r.randint(0, 4)}
            if l["enc"]["e"] == "base64":
                l["enc"].update(c=self.one(["", "zlib", "gzip"]), lvl=self.r.randint(1, 9))
            l["w"], l["h"] = self.r.randint(1, 5), self.r.randint(1, 5)
            if infinite:
                l["chunks"] = []
                for _ in range(self.r.randint(0, 3)):
                    w, h = self.r.randint(1, 5), self.r.randint(1, 5)
                    l["chunks"].append({"x": self.r.randint(-64, 64), "y": self.r.randint(-64, 64), "w": w, "h": h, "gids": self.gids(w * h)})
            else:
                l["gids"] = self.gids(l["w"] * l["h"])
        elif kind == "object":
            if self.bit():
                l["draworder"] = self.one(["topdown", "index"])
            l["objects"] = [self.object(oid + i, OBJ_KINDS) for i in range(self.r.randint(0, 3))]
            oid += 3
        elif kind == "image":
            l["image"] = self.one(RFILE)
            if self.bit():
                l["trans"] = self.one(RCOLOR)
        else:
            l["layers"] = []
        return l, lid + 1, oid

    def gids(self, n):
        return [self.one([0, 1, self.r.randint(1, 60), self.r.randint(0, 2**32 - 1)]) for _ in range(n)]

    def color(self, count):
        return self.some({"name": self.one(RTEXT), "color": self.one(RCOLOR), "tile": self.r.randint(-1, count), "prob": self.r.randint(0, 16) / 8},
                         **{"class": lambda: self.one(RCLASS), "props": self.props})

    def tile(self, id_, coll, count):
        t = self.some({"id": id_}, **{"class": lambda: self.one(RCLASS), "props": self.props,
                                      "anim": lambda: [[self.r.randint(0, max(count - 1, 0)), self.r.randint(1, 999)] for _ in range(self.r.randint(1, 4))]})
        if self.r.random() < 0.3:
            t["objects"] = {"k": "object", "name": "", "objects": [self.object(i + 1, OBJ_KINDS[:5]) for i in range(self.r.randint(0, 3))]}
        if coll:
            t["image"] = {"src": self.one(RFILE), "w": self.r.randint(1, 99), "h": self.r.randint(1, 99)}
        return t


OBJ_KINDS = ["rect", "ellipse", "point", "polygon", "polyline", "text", "tile"]


def put(draw, items, new):
    if draw(st.booleans()):
        items.extend(new)
    else:
        items[:0] = new


def rich_objects(draw, d):
    lists = [ls for ls in d.object_lists(False)]
    if not lists:
        return False
    ls = pick(draw, lists)
    r, n = Recipe(draw(st.integers(0, 999))), draw(RICH)
    oid = d.top_oid()
    have = {o.get("shape", {}).get("k") for o in d.objects()}
    kinds = ["text"] if have == {"text"} else OBJ_KINDS
    put(draw, ls, [r.object(oid + i, kinds) for i in range(n)])


def rich_layers(draw, d):
    lists = list(layer_lists(d.map["layers"]))
    r, n = Recipe(draw(st.integers(0, 999))), draw(RICH)
    lid, oid = d.top_id(), d.top_oid()
    kinds = draw(st.sampled_from([["tile", "object", "image", "group"], ["tile"], ["object"], ["image"], ["group"]]))
    places = [pick(draw, lists)]
    new = []
    for _ in range(min(n, 70)):
        l, lid, oid = r.layer(d, lid, oid, r.one(kinds), d.map["infinite"])
        if new and r.r.random() < 0.5:
            groups = [x for x in walk_layers(new) if x["k"] == "group"]
            (r.one(groups)["layers"] if groups else new).append(l)
        else:
            new.append(l)
    put(draw, places[0], new)


def rich_tiles(draw, d):
    if not d.defs or d.doc["tilesets"][-1]["ref"] == "tpl" or any(t.get("ts") == len(d.defs) - 1 for t in d.doc["templates"]):
        return False
    x = d.defs[-1]  # the last one, so that no other's gids move
    r, n = Recipe(draw(st.integers(0, 999))), draw(RICH)
    coll = "image" not in x
    top = max([t["id"] for t in x.get("tiles", [])] + [-1]) + 1
    step = draw(st.sampled_from([1, 1, 3]))
    new = [r.tile(top + i * step, coll, x["count"]) for i in range(n)]
    x.setdefault("tiles", [])
    put(draw, x["tiles"], new)
    x["count"] = len(x["tiles"]) if coll else max(x["count"], top + n * step)


def rich_wang(draw, d):
    if not d.defs:
        return False
    x = pick(draw, d.defs)
    r, n = Recipe(draw(st.integers(0, 999))), draw(RICH)
    sets = x.setdefault("wangsets", [])
    if not sets or draw(st.booleans()):
        sets.insert(draw(st.integers(0, len(sets))), r.some({"name": r.one(RTEXT), "type": r.one(["corner", "edge", "mixed"]), "tile": r.r.randint(-1, 9),
                                                            "colors": [], "tiles": []}, **{"class": lambda: r.one(RCLASS), "props": r.props}))
    w = pick(draw, sets)
    put(draw, w["colors"], [r.color(x["count"]) for _ in range(n)])
    used = {t[0] for t in w["tiles"]}
    n = draw(RICH)
    fresh = [i for i in range(n + len(used)) if i not in used][:n]
    r.r.shuffle(fresh)
    put(draw, w["tiles"], [[i, [r.r.randint(0, len(w["colors"])) for _ in range(8)]] for i in fresh])


def rich_tilesets(draw, d):
    refs = {t["ref"] for t in d.doc["tilesets"]}
    fmts = {t.get("fmt") for t in d.doc["tilesets"]} - {None}
    r, n = Recipe(draw(st.integers(0, 999))), min(draw(RICH), 12)
    gid = max([t["firstgid"] + max([t["def"]["count"]] + [x["id"] + 1 for x in t["def"].get("tiles", [])] + [1]) for t in d.doc["tilesets"]] + [1])
    for i in range(n):
        coll = r.bit()
        x = {"name": r.one(RTEXT), "tw": r.r.randint(1, 64), "th": r.r.randint(1, 64), "cols": r.r.randint(0 if coll else 1, 9), "count": r.r.randint(1, 40)}
        x["props"] = [["mark", "int", len(d.doc["tilesets"])]]
        if not coll:
            x["image"] = {"src": r.one(RFILE), "w": r.r.randint(1, 999), "h": r.r.randint(1, 999)}
        r.some(x, spacing=lambda: r.r.randint(0, 9), margin=lambda: r.r.randint(0, 9), bg=lambda: r.one(RCOLOR), offset=lambda: [r.r.randint(-9, 9), r.r.randint(-9, 9)],
               align=lambda: r.one(["topleft", "bottom", "center"]))
        x["tiles"] = [r.tile(j, coll, x["count"]) for j in range(r.r.randint(1 if coll else 0, 3))]
        if coll:
            x["count"] = len(x["tiles"])
        if not x["tiles"]:
            del x["tiles"]
        t = {"ref": "embed", "firstgid": gid, "def": x}
        if "ext" in refs and r.bit():
            t.update(ref="ext", dir=r.one(["", "maps", "ts"]), file="more%d" % len(d.doc["tilesets"]), fmt=r.one(sorted(fmts)), spell=0)
        gid += max(x["count"], 1) + r.r.choice([0, 0, 4])
        d.doc["tilesets"].append(t)


def tileset_order(draw, d):
    """tilesets not listed by first gid"""
    n = len(d.doc["tilesets"])
    if n < 2:
        return False
    order = list(range(n))
    if draw(st.booleans()):
        order.reverse()
    else:
        order = draw(st.permutations(order))
    d.doc["tilesets"][:] = [d.doc["tilesets"][i] for i in order]
    for t in d.doc["templates"]:
        if "ts" in t:
            t["ts"] = order.index(t["ts"])


ALL = [same_objects, same_layers, deeper, points, frames, wang, many_props, same_props, same_names, no_ids, long_text, big_data, flat_data,
       many_chunks, many_tiles, zeros, equal_pairs, extremes, listed_backwards, reshaped, same_chunks,
       rich_objects, rich_layers, rich_tiles, rich_wang, rich_tilesets, tileset_order]
SMALL = [deeper, points, frames, same_props, same_names, no_ids, flat_data, zeros, equal_pairs, extremes, listed_backwards]


def twist(draw, doc, ops=ALL, often=2):
    """Applies up to three twists to one in `often`+1 documents; doc["twists"] names them."""
    if draw(st.integers(0, often)) < often:
        return doc
    d = Doc(doc)
    done = []
    for _ in range(draw(st.integers(1, 3))):
        op = pick(draw, ops)
        if op(draw, d) is not False:
            done.append(op.__name__)
    if done:
        doc["twists"] = done
    return doc
