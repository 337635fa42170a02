from hypothesis import strategies as st

from .. import gen, observe, twist
from ..core import check_diff
from ..mapprop import MapProp, flat_layers

TWISTS = [twist.many_props, twist.many_props, twist.same_props, twist.same_objects, twist.same_layers, twist.long_text, twist.many_tiles, twist.rich_wang, twist.rich_tiles, twist.rich_objects, twist.rich_layers]
OWN = [("props", gen.properties(0, 4))]


@st.composite
def cases(draw):
    ids, oids = gen.Ids(), gen.Ids()
    m = gen.simple_header()
    gen.pick_optional(draw, m, OWN)
    objs = gen.objects(oids, kinds=("rect", "text", "polygon", "tile", "point"), props=OWN[0][1])
    m["layers"] = draw(gen.layers(ids, oids, False, 1, 1, 3, objs=objs, gid=st.integers(0, 9), optional=OWN, maxobj=3))
    tilesets = []
    if draw(st.booleans()):
        d = draw(gen.tileset_def(rich=False, wang=draw(st.booleans())))
        gen.pick_optional(draw, d, OWN)
        for tile in d.get("tiles", []):
            gen.pick_optional(draw, tile, OWN)
        tilesets = [{"ref": draw(st.sampled_from(["embed", "ext"])), "firstgid": 1, "def": d, "fmt": draw(st.sampled_from(["same", "tmx", "json"]))}]
    doc = gen.twist(draw, {"map": m, "tilesets": tilesets, "templates": []}, TWISTS)
    return {"doc": doc, "fmt": draw(st.sampled_from(["tmx", "json"]))}


def owners(doc):
    yield "map", doc["map"]
    for l in flat_layers(doc["map"]["layers"]):
        yield l["k"] + " layer", l
        for o in l.get("objects", []):
            yield "object", o
    for ts in doc["tilesets"]:
        d = ts["def"]
        yield "tileset", d
        for t in d.get("tiles", []):
            yield "tile", t
        for ws in d.get("wangsets", []):
            yield "wang set", ws
            for c in ws["colors"]:
                yield "wang color", c


def project(c):
    """owner path -> properties"""
    out = {"map": c["properties"]}

    def visit(layers, w):
        for i, l in enumerate(layers):
            out[f"{w}/{i}"] = l["properties"]
            for j, o in enumerate(l.get("objects", [])):
                out[f"{w}/{i}/object{j}"] = o["properties"]
            visit(l.get("layers", []), f"{w}/{i}")

    visit(c["layers"], "layers")
    for g, ts in c["tilesets"].items():
        out[f"tileset{g}"] = ts["properties"]
        for i, t in ts["tiles"].items():
            out[f"tileset{g}/tile{i}"] = t["properties"]
        for i, ws in enumerate(ts["wang_sets"]):
            out[f"tileset{g}/wang{i}"] = ws["properties"]
            for j, col in enumerate(ws["wang_colors"]):
                out[f"tileset{g}/wang{i}/color{j}"] = col["properties"]
    return out


class C07(MapProp):
    id = "C07"
    rule = (
        "A case is a map in which map, layers of all kinds, objects, tileset, tiles, Wang sets and Wang colours each own up to "
        "four random custom properties of all kinds (string stored as attribute or text, int, float, bool, file, colour, object, "
        "unsupported class), in TMX or JSON. Compared: owner -> {name: typed value}. Non-trivial: three or more properties."
    )
    quick = 500
    thorough = 25000

    def strategy(self, tier):
        return cases()

    def verify(self, case, exp, obs, problems, env):
        check_diff(observe.diff(project(exp), project(obs)), case["fmt"])

    def nontrivial(self, case):
        return sum(len(o.get("props", [])) for _, o in owners(case["doc"])) >= 3

    def classes(self, case):
        out = []
        for who, o in owners(case["doc"]):
            if o.get("props"):
                out.append("owner " + who)
                out += [f"{case['fmt']}:{p[1]}" for p in o["props"]]
                if any(p[1] == "string" and "\n" in p[2] for p in o["props"]):
                    out.append("multi-line string")
        return out


PROP = C07()
