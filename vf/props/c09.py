from hypothesis import strategies as st

from .. import gen, observe, twist
from ..core import check_diff
from ..mapprop import MapProp


TWISTS = [twist.wang, twist.wang, twist.zeros, twist.equal_pairs, twist.same_names, twist.listed_backwards, twist.many_props, twist.long_text, twist.rich_wang, twist.rich_wang, twist.rich_wang]


@st.composite
def cases(draw):
    d = draw(gen.tileset_def(rich=False, wang=True))
    ts = {"ref": draw(st.sampled_from(["embed", "ext"])), "firstgid": 1, "def": d, "fmt": draw(st.sampled_from(["same", "tmx", "json"]))}
    m = gen.simple_header(layers=[])
    doc = gen.twist(draw, {"map": m, "tilesets": [ts], "templates": []}, TWISTS)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"]))}


class C09(MapProp):
    id = "C09"
    rule = (
        "A case is a tileset with 1-2 Wang sets of up to four colours and five Wang tiles (tile ids in random order, eight random "
        "colour indexes each), random names, types, classes, probabilities and properties, embedded or external, TSX/TMX or JSON. "
        "Non-trivial: a Wang set with two colours or a Wang tile."
    )
    quick = 700
    thorough = 40000

    def strategy(self, tier):
        return cases()

    def verify(self, case, exp, obs, problems, env):
        pick = lambda c: {g: ts["wang_sets"] for g, ts in c["tilesets"].items()}  # noqa: E731
        check_diff(observe.diff(pick(exp), pick(obs)), case["fmt"])

    def sets(self, case):
        return case["doc"]["tilesets"][0]["def"]["wangsets"]

    def nontrivial(self, case):
        return any(len(ws["colors"]) > 1 or ws["tiles"] for ws in self.sets(case))

    def classes(self, case):
        ts = case["doc"]["tilesets"][0]
        out = [case["fmt"] + "/" + ts["fmt"] if ts["ref"] == "ext" else case["fmt"] + " embedded", "%d sets" % len(self.sets(case))]
        for ws in self.sets(case):
            out += ["set " + k for k in ("class", "props") if k in ws]
            out.append("%d colours" % len(ws["colors"]))
            out.append("%d tiles" % len(ws["tiles"]))
        return out


PROP = C09()
