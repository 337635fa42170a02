from hypothesis import strategies as st

from .. import gen, twist
from ..mapprop import MapProp, flat_layers, only


TWISTS = [twist.big_data, twist.flat_data, twist.same_layers, twist.listed_backwards, twist.deeper, twist.reshaped, twist.rich_layers]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    m = gen.simple_header(infinite=False)
    few = [("visible", gen.BOOL), ("offsetx", gen.COORD), ("props", gen.PROPS)]
    m["layers"] = draw(gen.layers(ids, oids, False, 1, 1, 3, ("tile", "tile", "tile", "group"), optional=few, big=True))
    doc = gen.twist(draw, {"map": m, "tilesets": [], "templates": []}, TWISTS)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"]))}


class C01(MapProp):
    id = "C01"
    rule = (
        "A case is a finite map with 1-3 (nested) tile layers of random size (1..6, sometimes 1..40 per axis, independent of "
        "the map's size), random 32-bit gids and a random storage (CSV/list, tile elements, base64 plain/zlib/gzip at levels "
        "0-9 or zstd through a stand-in for the optional package, varying blanks), in TMX or JSON. Non-trivial: some layer holds a non-zero gid."
    )
    quick = 700
    thorough = 40000
    select = staticmethod(only(("kind", "data", "chunks", "size")))

    def shard_env(self, shard):
        return {"VERIF_ZSTD": "1"}  # the optional zstd package is there, as a stand-in

    def strategy(self, tier):
        return cases()

    def nontrivial(self, case):
        return any(any(l["gids"]) for l in flat_layers(case["doc"]["map"]["layers"]) if l["k"] == "tile")

    def classes(self, case):
        out = []
        for l in flat_layers(case["doc"]["map"]["layers"]):
            if l["k"] == "tile":
                e = l["enc"]
                out.append(f"{case['fmt']}:{e['e']}{'+' + e['c'] if e.get('c') else ''}")
                if l["w"] != l["h"]:
                    out.append("not square")
                if any(g >= 2**28 for g in l["gids"]):
                    out.append("flip bits")
        return out


PROP = C01()
