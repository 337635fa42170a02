import os
import random

from hypothesis import strategies as st

from .. import gen, observe
from ..core import Prop, check_diff, parse_map
from ..emit import Writer, to_bytes
from ..mapprop import flat_layers
from ..tree import X
from .c14 import project_classes

UNKNOWN_ELEMENTS = [
    lambda: X("editorsettings", {}, [X("export", {"target": "out.json", "format": "json"}), X("chunksize", {"width": "16", "height": "16"})]),
    lambda: X("future", {"a": "1"}, [X("layer", {"id": "99", "name": "ghost"}), X("tileset", {"firstgid": "900"}), X("object", {"id": "1"})]),
    lambda: X("terraintypes", {}, [X("terrain", {"name": "x", "tile": "0"})]),
    lambda: X("note", {}, text="text with <markup> & more"),
    lambda: X("capsule"),
]
UNKNOWN_ATTRS = [("xfuture", "1"), ("compressionlevel", "-1"), ("skewx", "0"), ("mode", "multiply"), ("color2", "#zzz"), ("parallax", "5"), ("xid", "7")]
UNKNOWN_KEYS = [("xfuture", 1), ("editorsettings", {"export": {"target": "."}}), ("note", "x"), ("skewx", 0), ("mode", "multiply"), ("layers2", [{"type": "group"}]),
                ("capsule", True), ("parallax", None), ("xid", [1, 2])]


def add_unknown_xml(root, rng):
    density = rng.choice([0.15, 0.4, 0.9])
    for node in list(root.walk()):
        if rng.random() < density:
            key, value = rng.choice(UNKNOWN_ATTRS)
            node.attrs.setdefault(key, value)
        if node.tag in ("map", "layer", "objectgroup", "imagelayer", "group", "tileset", "tile", "object", "template", "wangsets", "wangset", "wangcolor",
                        "animation", "properties") and node.text is None:
            if node.tag == "tile" and "id" not in node.attrs:
                continue  # a cell of tile data
            if rng.random() < density:
                for _ in range(rng.choice([1, 1, 2, 4])):
                    node.kids.insert(rng.randrange(len(node.kids) + 1), rng.choice(UNKNOWN_ELEMENTS)())


def add_unknown_json(node, rng, key=None, density=None):
    density = density or rng.choice([0.15, 0.4, 0.9])
    if isinstance(node, dict):
        if key == "value":
            return
        for k, v in list(node.items()):
            add_unknown_json(v, rng, k, density)
        if key == "tiles":
            return  # tiles by id, in old files
        if rng.random() < density:
            for k, v in rng.sample(UNKNOWN_KEYS, rng.choice([1, 1, 2, 4])):
                node.setdefault(k, v)
    elif isinstance(node, list) and node and isinstance(node[0], (dict, list)):
        for v in node:
            add_unknown_json(v, rng, key, density)


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["tmx", "json"]))
    return {"doc": draw(gen.project(hi=3, ts_hi=2)), "fmt": fmt, "xml": draw(gen.xml_style()), "json": draw(gen.json_style()),
            "unknown": draw(st.one_of(st.none(), st.integers(0, 2**32))), "ws": draw(st.integers(0, 5)),
            "bare": draw(st.booleans())}


class C16(Prop):
    id = "C16"
    rule = (
        "A case is a random project in TMX or JSON (with tilesets in either) plus a random file layout (key/attribute order, "
        "indentation, blank lines, LF/CRLF, comments, processing instructions, DOCTYPE, CDATA, quotes, paired tags, entities and "
        "\\u escapes, blanks around tile data) and random unknown attributes, keys and elements; its model must equal that of "
        "the canonical files. Non-trivial: at least two layers or a tileset."
    )
    quick = 260
    thorough = 13000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc = case["doc"]
        writer = Writer(doc, case["fmt"])
        env.write({p: to_bytes(t) for p, t in writer.trees().items()})
        path = os.path.join(env.root, writer.map_path())
        base = observe.map_(parse_map(path))
        if case["ws"] < 5:
            for l in flat_layers(doc["map"]["layers"]):
                if l["k"] == "tile":
                    l["enc"] = dict(l["enc"], ws=case["ws"])
        trees = Writer(doc, case["fmt"]).trees()
        rng = random.Random(case["unknown"])
        for p, t in trees.items():
            if case["unknown"] is not None:
                if isinstance(t, X):
                    add_unknown_xml(t, rng)
                else:
                    add_unknown_json(t, rng)
        env.write({p: to_bytes(t, case["xml"] if isinstance(t, X) else case["json"]) for p, t in trees.items()})
        check_diff(observe.diff(base, observe.map_(parse_map(path))), case["fmt"] + " (canonical layout is 'expected')")

    def nontrivial(self, case):
        d = case["doc"]
        return len(list(flat_layers(d["map"]["layers"]))) >= 2 or bool(d["tilesets"])

    def classes(self, case):
        out = [case["fmt"]] + project_classes(case["doc"])
        style = case["xml"] if case["fmt"] == "tmx" else case["json"]
        out += [f"{case['fmt']} layout {k}" for k, v in style.items() if v and k not in ("seed",) and not isinstance(v, str)]
        if case["unknown"] is not None:
            out.append(case["fmt"] + " unknown content")
        return out


PROP = C16()
