from hypothesis import strategies as st

from .. import gen, twist
from ..mapprop import MapProp, flat_layers, only


TWISTS = [twist.big_data, twist.flat_data, twist.many_chunks, twist.same_layers, twist.deeper, twist.reshaped, twist.same_chunks, twist.rich_layers]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    m = gen.simple_header(infinite=True)
    few = [("visible", gen.BOOL), ("offsety", gen.COORD), ("props", gen.PROPS)]
    m["layers"] = draw(gen.layers(ids, oids, True, 1, 1, 3, ("tile", "tile", "tile", "group"), optional=few, big=True))
    doc = gen.twist(draw, {"map": m, "tilesets": [], "templates": []}, TWISTS)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"]))}


class C02(MapProp):
    id = "C02"
    rule = (
        "A case is an infinite map with 1-3 (nested) tile layers of 0-4 chunks each, every chunk with its own random position "
        "(-64..64), width and height (1..6, sometimes 1..40) and random 32-bit gids, in a random storage (CSV/list, tile "
        "elements, base64 plain/zlib/gzip/zstd, the latter through a stand-in for the optional package), in TMX or JSON. Non-trivial: a layer with two or more chunks, or a layer without any."
    )
    quick = 550
    thorough = 30000
    select = staticmethod(only(("kind", "data", "chunks")))

    def shard_env(self, shard):
        return {"VERIF_ZSTD": "1"}  # the optional zstd package is there, as a stand-in

    def strategy(self, tier):
        return cases()

    def nontrivial(self, case):
        return any(len(l["chunks"]) != 1 for l in flat_layers(case["doc"]["map"]["layers"]) if l["k"] == "tile")

    def classes(self, case):
        out = []
        for l in flat_layers(case["doc"]["map"]["layers"]):
            if l["k"] == "tile":
                e = l["enc"]
                out.append(f"{case['fmt']}:{e['e']}{'+' + e['c'] if e.get('c') else ''}")
                out.append("no chunks" if not l["chunks"] else "chunks")
                if any(c["w"] != c["h"] for c in l["chunks"]):
                    out.append("chunk not square")
                if len({(c["w"], c["h"]) for c in l["chunks"]}) > 1:
                    out.append("chunk sizes differ")
        return out


PROP = C02()
