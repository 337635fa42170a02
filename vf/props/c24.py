import copy
import os

from hypothesis import strategies as st

from .. import gen, observe
from ..compare import compare_map
from ..core import Prop, check_diff, parse_map, parse_tileset
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..mapprop import flat_layers
from .c10 import drop_images
from .c14 import project_classes

LEGACY = ["num_version", "no_tiledversion", "no_infinite", "no_nextlayerid", "no_columns", "notype", "dict_tiles"]


@st.composite
def cases(draw):
    fmt = draw(st.sampled_from(["json", "json", "tmx"]))
    doc = draw(gen.project(hi=3, ts_hi=2, maxobj=3, fmts=("same", "same", "same", "tmx", "json"), infinite=draw(st.sampled_from([False, False, True]))))
    legacy = draw(st.lists(st.sampled_from(LEGACY), unique=True))
    if doc["map"]["infinite"]:
        legacy = [k for k in legacy if k != "no_infinite"]
    if "num_version" in legacy:
        # versions whose text is that of the number
        for thing in [doc["map"]] + [t["def"] for t in doc["tilesets"]]:
            if "version" in thing:
                thing["version"] = draw(st.sampled_from(["1", "1.1", "1.2", "1.4", "1.5", "1.9", "2021", "2"]))
    knobs = {"legacy": legacy, "legacy_props": draw(st.booleans()), "classkey": draw(st.sampled_from(["class", "type", "type"]))}
    if draw(st.integers(0, 3)) == 0:
        knobs["both_class"] = draw(st.sampled_from(["", "old", "é"]))
    for tpl in doc["templates"]:
        mode = draw(st.integers(0, 3))
        tpl["knobs"] = {} if mode == 0 else {"classkey": draw(st.sampled_from(["class", "type"])), "legacy_props": mode == 1}
        if "both_class" in knobs:
            tpl["knobs"].pop("classkey", None)
    return {"doc": doc, "knobs": knobs, "fmt": fmt}


def weaken(props):
    """What a plain dictionary of properties still says: no file or colour types."""
    for p in props or []:
        if p[1] in ("file", "color"):
            p[1] = "string"


def thing_props(l, fn):
    fn(l.get("props"))
    for o in l.get("objects", []):
        fn(o.get("props"))


def legacy_doc(doc, knobs, writer):
    doc = copy.deepcopy(doc)
    if knobs["legacy_props"] and writer.fmt == "json":
        weaken(doc["map"].get("props"))
        for l in flat_layers(doc["map"]["layers"]):
            thing_props(l, weaken)
    for tpl in doc["templates"]:
        if tpl.get("knobs", {}).get("legacy_props", knobs["legacy_props"]) and writer.fmt == "json":
            weaken(tpl["obj"].get("props"))
    for ts in doc["tilesets"]:
        d = ts["def"]
        if "no_columns" in knobs["legacy"]:
            d["cols"] = 1
        if (writer.fmt if ts["ref"] == "embed" else writer.ts_fmt(ts)) == "json":
            if knobs["legacy_props"]:
                weaken(d.get("props"))
                for t in d.get("tiles", []):
                    weaken(t.get("props"))
                    if "objects" in t:
                        thing_props(t["objects"], weaken)
                for ws in d.get("wangsets", []):
                    weaken(ws.get("props"))
                    for c in ws["colors"]:
                        weaken(c.get("props"))
    return doc


class C24(Prop):
    id = "C24"
    rule = (
        "A case is a random project written as JSON or TMX with any subset of the legacy spellings (no tiledversion, infinite, nextlayerid or "
        "columns; in JSON also numeric versions, no tileset type, tiles as a dictionary; properties as dictionaries; 'type' for 'class', or "
        "both with 'class' to win; object templates saved by another version than the map); the map and each tileset alone "
        "must parse to the reference model, less what the spelling cannot say. Non-trivial: a legacy spelling is used."
    )
    quick = 300
    thorough = 16000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        doc, knobs = case["doc"], case["knobs"]
        writer = Writer(doc, case["fmt"], knobs)
        env.write(writer.contents())
        parsed = parse_map(os.path.join(env.root, writer.map_path()))
        weak = legacy_doc(doc, knobs, writer)
        ex = Expect(weak, env.root, case["fmt"], writer)
        exp = ex.map()
        if "no_tiledversion" in knobs["legacy"]:
            exp["tiled_version"] = ""
        if "no_nextlayerid" in knobs["legacy"]:
            exp["next_layer_id"] = None
        check_diff(compare_map(weak, env.root, case["fmt"], writer, parsed, expected=exp), ", ".join(knobs["legacy"]))
        for i, ts in enumerate(weak["tilesets"]):
            if ts["ref"] != "embed":
                alone = observe.tileset(parse_tileset(os.path.join(env.root, writer.ts_path(i))))
                check_diff(observe.diff(drop_images(ex.tileset(ts["def"], 1, None)), drop_images(alone), "tileset"), "alone")

    def nontrivial(self, case):
        k = case["knobs"]
        return bool(k["legacy"] or k["legacy_props"] or k["classkey"] == "type" or "both_class" in k)

    def classes(self, case):
        k = case["knobs"]
        out = ["legacy " + x for x in k["legacy"]] + ["properties as dictionary"] * k["legacy_props"]
        out.append("both classes" if "both_class" in k else "class spelled " + k["classkey"])
        return out + [case["fmt"]] + project_classes(case["doc"])


PROP = C24()
