import copy
import os
import random

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, check_diff, parse_map
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..mapprop import flat_layers

LAYER = {"opacity": 1, "visible": True, "offsetx": 0, "offsety": 0, "parallaxx": 1, "parallaxy": 1, "repeatx": False, "repeaty": False}
OBJECT = {"w": 0, "h": 0, "rotation": 0, "visible": True, "name": ""}
TEXT = {"fontfamily": "sans-serif", "pixelsize": 16, "bold": False, "italic": False, "kerning": True, "strikeout": False,
        "underline": False, "halign": "left", "valign": "top", "wrap": False, "color": "#ffffffff"}
TILESET = {"spacing": 0, "margin": 0, "rendersize": "tile", "fillmode": "stretch"}
MAP = {"parallaxoriginx": 0, "parallaxoriginy": 0}
TILE = {"x": 0, "y": 0}


def toggle(target, defaults, rng, touched, what):
    for key, default in defaults.items():
        if rng.random() < 0.5:
            if key not in target:
                target[key] = default
                touched.append(f"{what}.{key}")
            elif target[key] == default and type(target[key]) is type(default):
                del target[key]
                touched.append(f"{what}.{key}")


def toggle_props(owner, rng, touched):
    for p in owner.get("props") or []:
        if p[1] == "string" and rng.random() < 0.5:
            opts = dict(p[3]) if len(p) > 3 else {}
            opts["omit"] = not opts.get("omit", True)
            opts["omit_json"] = not opts.get("omit_json", False)
            p[3:] = [opts]
            touched.append("property.type")


def variant(doc, seed):
    """The same content with a different choice of which defaults are spelled out."""
    rng = random.Random(seed)
    doc = copy.deepcopy(doc)
    touched = []
    toggle(doc["map"], MAP, rng, touched, "map")
    toggle_props(doc["map"], rng, touched)

    def objs(layer):
        if "draworder" not in layer or layer["draworder"] == "topdown":
            toggle(layer, {"draworder": "topdown"}, rng, touched, "layer")
        for o in layer["objects"]:
            toggle(o, OBJECT, rng, touched, "object")
            toggle_props(o, rng, touched)
            if o.get("shape", {}).get("k") == "text":
                toggle(o["shape"], TEXT, rng, touched, "text")

    for l in flat_layers(doc["map"]["layers"]):
        toggle(l, LAYER, rng, touched, "layer")
        toggle_props(l, rng, touched)
        if l["k"] == "object":
            objs(l)
        if l["k"] == "tile":
            enc = l["enc"]
            if not enc.get("c") and rng.random() < 0.7:
                enc["explicit"] = not enc.get("explicit", enc["e"] == "base64")
                touched.append("data.compression/encoding")
            if enc["e"] == "elements" and rng.random() < 0.5:
                enc["omit0"] = not enc.get("omit0", True)
                touched.append("tile.gid")
        if l["name"] == "" and rng.random() < 0.5:
            l["explicit_name"] = True
    for ts in doc["tilesets"]:
        toggle(ts["def"], TILESET, rng, touched, "tileset")
        toggle_props(ts["def"], rng, touched)
        for t in ts["def"].get("tiles", []):
            toggle(t, TILE, rng, touched, "tile")
            if t.get("image"):
                # the sub-rectangle defaults to the whole image
                im = t["image"]
                toggle(t, {k: im[k] for k in ("w", "h") if k in im}, rng, touched, "tile")
            if "objects" in t:
                objs(t["objects"])
    return doc, touched


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["tmx", "json"]))
    doc = draw(gen.project(templates=False, depth=1, hi=3, ts_hi=2))
    # values equal to the default, written out, are as interesting as missing ones
    seeds = draw(st.lists(st.integers(0, 2**32), min_size=1, max_size=3))
    return {"doc": doc, "fmt": fmt, "seeds": seeds}


class C15(Prop):
    id = "C15"
    rule = (
        "A case is a random project and 1-3 variants of it that spell out a random subset of the missing optional attributes "
        "with their defaults and leave out a random subset of those present at their default; all variants must parse to equal "
        "models, equal to the reference model. Non-trivial: a variant toggles at least three attributes. In JSON only attributes "
        "Tiled does not always write are toggled in the file."
    )
    quick = 260
    thorough = 13000

    def strategy(self, tier):
        return cases()

    def model(self, doc, case, env):
        writer = Writer(doc, case["fmt"])
        env.write(writer.contents())
        return writer, observe.map_(parse_map(os.path.join(env.root, writer.map_path())))

    def check(self, case, env):
        writer, base = self.model(case["doc"], case, env)
        check_diff(observe.diff(Expect(case["doc"], env.root, case["fmt"], writer).map(), base), case["fmt"])
        for seed in case["seeds"]:
            doc, touched = variant(case["doc"], seed)
            _, other = self.model(doc, case, env)
            check_diff(observe.diff(base, other), f"{case['fmt']} with toggled {touched[:12]}")

    def nontrivial(self, case):
        return any(len(variant(case["doc"], s)[1]) >= 3 for s in case["seeds"])

    def classes(self, case):
        out = [case["fmt"]]
        for s in case["seeds"]:
            out += sorted(set(variant(case["doc"], s)[1]))
        return out


PROP = C15()
