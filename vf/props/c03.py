from hypothesis import strategies as st

from .. import gen, twist
from ..mapprop import MapProp, flat_layers, only


TWISTS = [twist.same_layers, twist.deeper, twist.same_names, twist.no_ids, twist.no_ids, twist.listed_backwards, twist.zeros, twist.same_objects, twist.rich_layers, twist.rich_layers]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    inf = draw(st.booleans())
    m = gen.simple_header(infinite=inf)
    objs = st.builds(lambda i: {"id": i, "x": 1, "y": 2}, st.integers(1, 99))
    m["layers"] = draw(
        gen.layers(ids, oids, inf, 4, 0, 4, ("tile", "object", "image", "group", "group"), objs=objs,
                   gid=st.integers(0, 9), optional=[("visible", gen.BOOL)], maxobj=2)
    )
    # tilesets whose tiles have collision shapes (object groups of their own)
    tilesets = draw(gen.tileset_refs(0, 2, ("embed", "ext"), rich=False))
    for ts in tilesets:
        for tile in ts["def"].get("tiles", []):
            if draw(st.booleans()):
                tile["objects"] = {"k": "object", "name": "collision", "draworder": "index", "id": 2,
                                   "objects": draw(st.lists(objs, max_size=2))}
    doc = gen.twist(draw, {"map": m, "tilesets": tilesets, "templates": []}, TWISTS)
    if draw(st.integers(0, 3)) == 3:  # layers before tilesets, between properties and so on
        doc["layout"] = {"xml": {"seed": draw(st.integers(0, 2**16)), "regroup": True}, "json": {"seed": 1, "shuffle": True}}
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"]))}


def depth(layers):
    return 1 + max((depth(l["layers"]) for l in layers if l["k"] == "group"), default=0) if layers else 0


class C03(MapProp):
    id = "C03"
    rule = (
        "A case is a map with a random layer tree (up to 5 levels, 0-4 layers of the four kinds per level, mixed order, empty "
        "groups) and up to two tilesets whose tiles own collision object groups, in TMX or JSON. Compared: kind, name, id and "
        "nesting of every layer. Non-trivial: the tree has a group and at least three layers."
    )
    quick = 500
    thorough = 25000
    select = staticmethod(only(("kind", "name", "id")))

    def strategy(self, tier):
        return cases()

    def nontrivial(self, case):
        flat = list(flat_layers(case["doc"]["map"]["layers"]))
        return len(flat) >= 3 and any(l["k"] == "group" for l in flat)

    def classes(self, case):
        d = case["doc"]
        out = [case["fmt"], "depth %d" % depth(d["map"]["layers"])]
        if any("objects" in t for ts in d["tilesets"] for t in ts["def"].get("tiles", [])):
            out.append("tile collision groups")
        return out


PROP = C03()
