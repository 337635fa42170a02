import os

from hypothesis import strategies as st

from .. import gen, twist
from ..mapprop import MapProp


TWISTS = [twist.zeros, twist.equal_pairs, twist.extremes, twist.many_props, twist.long_text]


@st.composite
def cases(draw):
    m = draw(gen.map_header())
    # widths and heights that differ show any mix-up
    for a, b in (("width", "height"), ("tilewidth", "tileheight"), ("nextlayerid", "nextobjectid")):
        if m[a] == m[b]:
            m[b] += 1
    m["layers"] = draw(gen.layers(gen.Ids(), gen.Ids(), m["infinite"], 1, 0, 2, maxobj=1)) if draw(st.integers(0, 3)) == 0 else []
    tilesets = draw(gen.tileset_refs(0, 1, rich=False)) if draw(st.integers(0, 3)) == 0 else []
    doc = {"dir": draw(st.sampled_from(gen.DIRS)), "name": draw(st.sampled_from(["map", "é", "a b"])), "map": m, "tilesets": tilesets, "templates": []}
    return {"doc": gen.twist(draw, doc, TWISTS),
            "fmt": draw(st.sampled_from(["tmx", "json"])), "style": {"seed": draw(st.integers(0, 99)), "shuffle": draw(st.booleans())},
            "alias": draw(st.sampled_from([None, None, None, "alias.map", "dir/m"]))}


def header(canon):
    return {k: v for k, v in canon.items() if k not in ("layers", "tilesets")}


class C25(MapProp):
    id = "C25"
    rule = (
        "A case is a TMX or JSON map with random attributes and any subset of the optional ones, mostly without layers or "
        "tilesets; all attributes of the parsed map must equal the reference; some are parsed by a symbolic link. Non-trivial: an optional attribute is given."
    )
    quick = 1400
    thorough = 100000
    select = staticmethod(header)

    def strategy(self, tier):
        return cases()

    def produce(self, case, env):
        """Some maps are parsed by a symbolic link to the file"""
        writer, path = super().produce(case, env)
        self.path = path
        if case.get("alias") and not case["doc"]["tilesets"]:
            self.path = os.path.join(env.root, case["alias"])
            os.makedirs(os.path.dirname(self.path), exist_ok=True)
            os.symlink(path, self.path)
        return writer, self.path

    def verify(self, case, exp, obs, problems, env):
        exp["map_file"] = ("path", self.path)
        super().verify(case, exp, obs, problems, env)

    def nontrivial(self, case):
        return any(k in case["doc"]["map"] for k, _ in gen.MAP_OPTIONAL)

    def classes(self, case):
        m = case["doc"]["map"]
        return [case["fmt"], m["orientation"], "infinite" if m["infinite"] else "finite"] + [f"{case['fmt']} {k}" for k, _ in gen.MAP_OPTIONAL if k in m]


PROP = C25()
