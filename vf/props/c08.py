import os

from hypothesis import strategies as st

from .. import gen, observe, twist
from ..core import check_diff, parse_tileset
from ..emit import Writer, to_bytes
from ..expect import Expect
from ..mapprop import MapProp


TWISTS = [twist.many_tiles, twist.frames, twist.frames, twist.zeros, twist.zeros, twist.equal_pairs, twist.listed_backwards, twist.many_props,
          twist.same_props, twist.points, twist.same_objects, twist.long_text, twist.rich_tiles, twist.rich_tiles, twist.rich_tilesets]


@st.composite
def cases(draw):
    how = draw(st.sampled_from(["embed", "ext", "alone"]))
    d = draw(gen.tileset_def(wang=False))
    tilesets = [{"ref": "embed" if how == "embed" else "ext", "firstgid": draw(st.integers(1, 50)), "def": d,
                 "fmt": draw(st.sampled_from(["same", "tmx", "json"])), "dir": draw(st.sampled_from(gen.DIRS))}]
    if how != "alone" and draw(st.integers(0, 3)) == 0:
        d2 = draw(gen.tileset_def(wang=False))
        tilesets.append({"ref": "embed", "firstgid": tilesets[0]["firstgid"] + gen.span(d), "def": d2})
    m = gen.simple_header(layers=[])
    doc = gen.twist(draw, {"map": m, "tilesets": tilesets, "templates": []}, TWISTS)
    return {"how": how, "doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"])),
            "knobs": {"classkey": draw(st.sampled_from(["class", "type"]))}}


class C08(MapProp):
    id = "C08"
    rule = (
        "A case is one or two tilesets (single image or image collection) with a random subset of all optional attributes and up "
        "to four tiles with class, properties, animation, collision objects, image and sub-rectangle, embedded in a map, "
        "referenced by it, or parsed alone, as TSX/TMX or JSON. Every attribute is compared. Non-trivial: at least one tile."
    )
    quick = 500
    thorough = 25000

    def strategy(self, tier):
        return cases()

    def check(self, case, env):
        if case["how"] != "alone":
            return super().check(case, env)
        writer = Writer(case["doc"], case["fmt"], case.get("knobs"))
        path = writer.ts_path(0)
        env.write({path: writer.contents()[path]})
        parsed = parse_tileset(os.path.join(env.root, path))
        # a tileset parsed on its own keeps its image paths as written or resolves them
        # (C10 decides where they lead when a map refers to it)
        exp = Expect(case["doc"], env.root, case["fmt"], writer).tileset(case["doc"]["tilesets"][0]["def"], 1, None)
        check_diff(observe.diff(exp, observe.tileset(parsed), "alone"), path)

    def verify(self, case, exp, obs, problems, env):
        check_diff(observe.diff(exp["tilesets"], obs["tilesets"]), case["fmt"])

    def nontrivial(self, case):
        return any(ts["def"].get("tiles") for ts in case["doc"]["tilesets"])

    def classes(self, case):
        out = [case["how"], case["fmt"]]
        for ts in case["doc"]["tilesets"]:
            d = ts["def"]
            out += [k for k in d if k not in ("name", "tw", "th", "count", "cols", "tiles")]
            for t in d.get("tiles", []):
                out += ["tile " + k for k in t if k != "id"]
        return out


PROP = C08()
