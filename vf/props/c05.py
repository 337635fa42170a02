from hypothesis import strategies as st

from .. import gen, observe, twist
from ..core import check_diff
from ..mapprop import MapProp, flat_layers, only


TWISTS = [twist.points, twist.points, twist.same_objects, twist.same_names, twist.zeros, twist.extremes, twist.equal_pairs, twist.listed_backwards,
          twist.long_text, twist.same_layers, twist.rich_objects, twist.rich_objects, twist.rich_layers]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    m = gen.simple_header()
    few = st.just([])
    objs = gen.objects(oids, props=few)
    m["layers"] = draw(gen.layers(ids, oids, False, 2, 1, 3, ("object", "object", "group"), objs=objs, optional=[("visible", gen.BOOL)], maxobj=6))
    tilesets = []
    if draw(st.booleans()):
        d = draw(gen.tileset_def(rich=False))
        for tile in d.get("tiles", []):
            if draw(st.booleans()):
                tids = gen.Ids()
                tile["objects"] = {"k": "object", "name": "", "draworder": "index",
                                   "objects": draw(st.lists(gen.objects(tids, props=few), max_size=4))}
        tilesets = [{"ref": draw(st.sampled_from(["embed", "ext"])), "firstgid": 1, "def": d, "fmt": draw(st.sampled_from(["same", "tmx", "json"]))}]
    doc = gen.twist(draw, {"map": m, "tilesets": tilesets, "templates": []}, TWISTS)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])),
            "knobs": {"classkey": draw(st.sampled_from(["class", "type"]))}}


def all_objects(doc):
    for l in flat_layers(doc["map"]["layers"]):
        if l["k"] == "object":
            yield from l["objects"]
    for ts in doc["tilesets"]:
        for t in ts["def"].get("tiles", []):
            yield from t.get("objects", {}).get("objects", [])


class C05(MapProp):
    id = "C05"
    rule = (
        "A case is a map with object layers (nested too) and tile collision layers holding up to six objects each of all seven "
        "kinds, with random ids, positions, optional name/class/width/height/rotation/visibility, polygon points and gids (flip "
        "bits included), in TMX or JSON. Non-trivial: two or more objects."
    )
    quick = 550
    thorough = 30000
    TEXT = ("color", "font_family", "font_size", "bold", "italic", "kerning", "strike_out", "underline", "horizontal_align",
            "vertical_align", "wrap")

    def strategy(self, tier):
        return cases()

    def verify(self, case, exp, obs, problems, env):
        proj = only(("kind", "objects"))
        pick = lambda c: {  # noqa: E731
            **proj(c),
            "collision": {g: {i: t["objects"] and t["objects"]["objects"] for i, t in ts["tiles"].items()} for g, ts in c["tilesets"].items()},
        }
        check_diff(observe.diff(pick(exp), pick(obs), ignore=self.TEXT + ("properties",)), case["fmt"])

    def nontrivial(self, case):
        return len(list(all_objects(case["doc"]))) >= 2

    def classes(self, case):
        out = []
        for o in all_objects(case["doc"]):
            out.append(case["fmt"] + ":" + o["shape"]["k"])
            if ("w" in o) != ("h" in o):
                out.append("only one dimension")
        if any("objects" in t for ts in case["doc"]["tilesets"] for t in ts["def"].get("tiles", [])):
            out.append("tile collision layer")
        return out


PROP = C05()
