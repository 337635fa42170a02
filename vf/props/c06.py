from hypothesis import strategies as st

from .. import gen, twist
from ..mapprop import MapProp, only

LONG = st.one_of(gen.TEXT, st.lists(gen.TEXT, max_size=4).map("\n".join), st.sampled_from(["", " ", "\n", "  a\n\n b  ", "\t", "a\r\nb"]))


TWISTS = [twist.same_objects, twist.same_names, twist.zeros, twist.long_text, twist.equal_pairs, twist.rich_objects]


@st.composite
def cases(draw):
    oids = gen.Ids()
    objs = []
    for _ in range(draw(st.integers(1, 4))):
        shape = {"k": "text", "text": draw(LONG)}
        gen.pick_optional(draw, shape, gen.TEXT_OPTIONAL)
        objs.append({"id": oids(draw), "x": 1, "y": 2, "shape": shape})
    m = gen.simple_header()
    m["layers"] = [{"k": "object", "name": "t", "id": 1, "objects": objs}]
    doc = gen.twist(draw, {"map": m, "tilesets": [], "templates": []}, TWISTS)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"]))}


class C06(MapProp):
    id = "C06"
    rule = (
        "A case is an object layer of 1-4 text objects with random text (Unicode, line breaks, blanks, markup characters, empty) "
        "and a random subset of the eleven style settings at random values, in TMX or JSON. Non-trivial: some object states at "
        "least two settings."
    )
    quick = 900
    thorough = 50000
    select = staticmethod(only(("kind", "objects")))

    def strategy(self, tier):
        return cases()

    def nontrivial(self, case):
        return any(len(o["shape"]) >= 4 for o in case["doc"]["map"]["layers"][0]["objects"])

    def classes(self, case):
        out = [case["fmt"]]
        for o in case["doc"]["map"]["layers"][0]["objects"]:
            s = o["shape"]
            out += [k for k in s if k not in ("k", "text")]
            t = s["text"]
            out.append("empty text" if not t else "blank ends" if t != t.strip() else "multi-line" if "\n" in t else "plain text")
        return out


PROP = C06()
