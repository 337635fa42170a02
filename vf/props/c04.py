from hypothesis import strategies as st

from .. import gen, twist
from ..mapprop import MapProp, flat_layers, only

KEYS = ("kind", "name", "id", "class", "opacity", "visible", "offset", "parallax_factor", "tint_color", "repeat_x", "repeat_y",
        "size", "draw_order", "image", "transparent_color", "coordinates")


TWISTS = [twist.same_layers, twist.deeper, twist.same_names, twist.no_ids, twist.listed_backwards, twist.zeros, twist.zeros, twist.extremes,
          twist.equal_pairs, twist.long_text, twist.rich_layers, twist.rich_layers]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    inf = draw(st.booleans())
    m = gen.simple_header(infinite=inf)
    optional = [o for o in gen.LAYER_OPTIONAL if o[0] != "props"]
    objs = st.builds(lambda i: {"id": i, "x": 1, "y": 2}, st.integers(1, 99))
    m["layers"] = draw(gen.layers(ids, oids, inf, 2, 1, 3, objs=objs, gid=st.integers(0, 9), optional=optional, maxobj=1))
    doc = gen.twist(draw, {"map": m, "tilesets": [], "templates": []}, TWISTS)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"]))}


class C04(MapProp):
    id = "C04"
    rule = (
        "A case is a map with 1-3 (nested) layers of all kinds, each with a random subset of the optional attributes at random "
        "values (defaults included), in TMX or JSON. Every layer attribute is compared with the document. Non-trivial: some "
        "layer states at least two optional attributes."
    )
    quick = 600
    thorough = 30000
    select = staticmethod(only(KEYS))
    ATTRS = ("class", "opacity", "visible", "offsetx", "offsety", "parallaxx", "parallaxy", "tint", "repeatx", "repeaty",
             "draworder", "trans", "startx")

    def strategy(self, tier):
        return cases()

    def nontrivial(self, case):
        return any(sum(a in l for a in self.ATTRS) >= 2 for l in flat_layers(case["doc"]["map"]["layers"]))

    def classes(self, case):
        out = []
        for l in flat_layers(case["doc"]["map"]["layers"]):
            out.append(case["fmt"] + ":" + l["k"])
            out += [a for a in self.ATTRS if a in l]
            for a, b in (("offsetx", "offsety"), ("parallaxx", "parallaxy"), ("repeatx", "repeaty")):
                if (a in l) != (b in l):
                    out.append(f"only one of {a}/{b}")
        return out


PROP = C04()
