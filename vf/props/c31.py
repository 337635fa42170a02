import copy
import os
import pickle
import random

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, call, check_diff, fail, parse_map, parse_tileset, parse_world
from ..emit import Writer, to_bytes
from ..mapprop import flat_layers
from ..tree import json_bytes
from .c14 import project_classes
from .c19 import simple_worlds, world_json

FREE = {"name", "class", "opacity", "visible", "offsetx", "offsety", "parallaxx", "parallaxy", "tint", "repeatx", "repeaty", "draworder", "image", "trans", "x", "y", "w", "h",
        "rotation", "text", "color", "fontfamily", "pixelsize", "bold", "italic", "kerning", "strikeout", "underline", "halign", "valign", "wrap", "prob", "spacing", "margin", "bg",
        "align", "rendersize", "fillmode", "version", "tiledversion", "orientation", "renderorder", "width", "height", "tilewidth", "tileheight", "nextlayerid", "nextobjectid",
        "backgroundcolor", "hexsidelength", "staggeraxis", "staggerindex", "parallaxoriginx", "parallaxoriginy", "tw", "th", "src", "o", "r", "p", "v", "gids", "points", "props", "anim",
        "offset", "tiles", "colors", "type", "id"}
COLORS = {"tint", "trans", "bg", "backgroundcolor", "color"}


def places(doc):
    """every value of the document that can be changed on its own"""
    out = []

    def visit(node, key):
        if isinstance(node, dict):
            fixed = "gids" in node or "chunks" in node  # the size of a layer goes with its data
            for k, v in node.items():
                if k in ("enc", "knobs", "twists", "k"):
                    continue
                if isinstance(v, (dict, list)):
                    visit(v, k)
                elif k in FREE and not (fixed and k in ("w", "h")):
                    out.append((node, k))
        elif isinstance(node, list):
            if key == "props":
                for p in node:
                    if p[1] in ("string", "int", "float", "bool", "file", "color", "object"):
                        out.append((p, 2))
                        out.append((p, 0))
            elif key == "gids":
                out.extend((node, i) for i in range(min(len(node), 40)))
            else:
                for i, v in enumerate(node):
                    if isinstance(v, (dict, list)):
                        visit(v, key)
                    elif key in ("points", "anim", "offset"):
                        out.append((node, i))

    visit(doc["map"], "")
    for ts in doc["tilesets"]:
        visit(ts["def"], "")
    for t in doc["templates"]:
        visit(t["obj"], "")
    return out


def changed(node, k):
    v = node[k]
    if k in COLORS or (isinstance(k, int) and len(node) > 2 and node[1] == "color" and k == 2):
        return "#12345678" if v.strip("#").lower() != "12345678" else "#87654321"
    if isinstance(v, bool):
        return not v
    if k == "opacity" or k == "prob":
        return 0.5 if v != 0.5 else 0.25
    if isinstance(v, (int, float)):
        return v + 1 if abs(v) < 2**31 - 2 else 5
    return v + "~"


def is_gid(node, k):
    return isinstance(k, int) and all(isinstance(x, int) for x in node)


@st.composite
def cases(draw):
    doc = draw(gen.project(hi=3, ts_hi=2, maxobj=3))
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])), "world": draw(simple_worlds()), "seed": draw(st.integers(0, 2**16))}


def same(a, b, what):
    if not call(lambda: a == b) or call(lambda: a != b):
        fail(f"{what}: not equal")


class C31(Prop):
    id = "C31"
    rule = (
        "A case is a random project and world. Parsing it twice must give equal models with equal representations; each model must equal its "
        "shallow and deep copies and what pickling gives back, which must also read the same attribute by attribute; and "
        "after changing up to five single values of the document (any attribute, property, tile, point, frame), each on its own, the new model must differ from the "
        "old one by == exactly when their attributes differ. Non-trivial: the project has a layer or a tileset."
    )
    quick = 260
    thorough = 12000

    def strategy(self, tier):
        return cases()

    def parse(self, doc, case, env):
        writer = Writer(doc, case["fmt"])
        env.write(writer.contents())
        return parse_map(os.path.join(env.root, writer.map_path())), writer

    def check(self, case, env):
        doc = case["doc"]
        a, writer = self.parse(doc, case, env)
        self.value(a, observe.map_, parse_map(os.path.join(env.root, writer.map_path())), "map")
        env.write({"w/x.world": json_bytes(world_json(case["world"]))})
        path = os.path.join(env.root, "w/x.world")
        self.value(parse_world(path), observe.world, parse_world(path), "world")
        for i, t in enumerate(doc["tilesets"][:2]):
            if t["ref"] != "embed":
                path = os.path.join(env.root, writer.ts_path(i))
                self.value(parse_tileset(path), observe.tileset, parse_tileset(path), "tileset")
        rng = random.Random(case["seed"])
        before = observe.map_(a)
        for _ in range(5):
            other = copy.deepcopy(doc)
            spots = places(other)
            if not spots:
                return
            node, k = rng.choice(spots)
            old = node[k]
            node[k] = changed(node, k)
            if k == "id" and not self.ids_ok(other):
                continue
            b, _ = self.parse(other, case, env)
            differ = bool(observe.diff(before, observe.map_(b)))
            equal = call(lambda: a == b)
            if equal == differ or call(lambda: a != b) == equal:
                fail(f"{case['fmt']}: after {k!r} changed from {old!r:.80} to {node[k]!r:.80} the attributes {'differ' if differ else 'are the same'} but == gives {equal}")

    def ids_ok(self, doc):
        for ts in doc["tilesets"]:
            ids = [t["id"] for t in ts["def"].get("tiles", [])]
            if len(ids) != len(set(ids)):
                return False
        return True

    def value(self, a, read, b, what):
        same(a, b, f"{what} parsed twice")
        if call(repr, a) != call(repr, b) or call(str, a) != call(str, b):
            fail(f"{what} parsed twice: the representations differ")
        exp = read(a)
        for how, fn in (("copy", copy.copy), ("deep copy", copy.deepcopy), ("pickled", lambda m: pickle.loads(pickle.dumps(m)))):
            c = call(fn, a)
            if type(c) is not type(a):
                fail(f"{what}: {how} is a {type(c).__name__}")
            same(a, c, f"{what} and its {how}")
            check_diff(observe.diff(exp, read(c)), f"{what}, {how}")
        check_diff(observe.diff(exp, read(a)), f"{what} after copying")

    def nontrivial(self, case):
        return bool(case["doc"]["map"]["layers"] or case["doc"]["tilesets"])

    def classes(self, case):
        out = [case["fmt"]] + project_classes(case["doc"])
        if any(l["k"] == "group" for l in flat_layers(case["doc"]["map"]["layers"])):
            out.append("groups")
        return out


PROP = C31()
